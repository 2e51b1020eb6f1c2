----------------------------- MODULE MatlabTrace -----------------------------
(* Validates what qtune made of indices, gate voltages, measurements, sessions *)
(* and results of analyses; every event describes one call.                     *)
EXTENDS Matlab, TraceBase

VARIABLES t, l, st
vars == <<t, l, st>>
Cfg == Traces[t].cfg
Ok(e) == e.exc = "none"

\* ---- indices: got[n + 1] are the positions (from 1) selected from n elements
SliceOk(n, a, b, c, got) ==
    IF Within(n, a, b, c) THEN Same(got, PySlice(n, a, b, c))
    ELSE Same(got, PySlice(n, a, b, c)) \/ ~MatExists(n, got)
IndexOk(n, i, got) ==
    IF IndexExists(n, i) THEN Same(got, PyIndex(n, i)) ELSE ~MatExists(n, got)
AxisOk(x) == IF x.slice = 1 THEN SliceOk(x.n, x.a, x.b, x.c, x.got) ELSE IndexOk(x.n, x.a, x.got)
SliceClauses(e) == <<
    C("M01.no_error", TRUE, Ok(e)),
    C("M01.slice", Ok(e), \A n \in DOMAIN e.got : SliceOk(n - 1, e.a, e.b, e.c, e.got[n]))
  >>
IndexClauses(e) == <<
    C("M01.no_error", TRUE, Ok(e)),
    C("M01.index", Ok(e), \A n \in DOMAIN e.got : IndexOk(n - 1, e.a, e.got[n]))
  >>
TupleClauses(e) == <<
    C("M01.no_error", TRUE, Ok(e)),
    C("M01.tuple", Ok(e), Len(e.axes) = e.dim /\ \A i \in DOMAIN e.axes : AxisOk(e.axes[i]))
  >>
\* elements of a struct array carry their position (from 1)
ViewClauses(e) == <<
    C("M01.view", TRUE, Ok(e) /\ (IF e.slice = 1 THEN Same(e.got, PySlice(e.n, e.a, e.b, e.c))
                                  ELSE Same(e.got, PyIndex(e.n, e.a)))),
    C("M01.length", Ok(e), e.len = e.n),
    C("M01.iterates", Ok(e), e.all = [i \in 1..e.n |-> i])
  >>

\* ---- gate voltages: vectors in the order of the gates of the device
SetClauses(e) ==
    LET want == Merge(e.before, e.req) IN <<
    C("M02.sent", e.unknown = 0, e.nsent = 1 /\ VecNear(e.sent, want, 0) /\ e.more = 0),
    C("M02.numbers", e.unknown = 0, e.numbers = 1),
    C("M02.refused", e.refuses = 1 /\ e.unknown = 0, e.exc = "injected" /\ VecNear(e.after, e.before, 0)),
    C("M02.no_error", e.refuses = 0 /\ e.unknown = 0, Ok(e)),
    C("M02.unknown", e.unknown = 1, e.exc # "none" /\ VecNear(e.after, e.before, 0)),
    C("M02.keeps_others", TRUE, \A i \in DOMAIN e.req : e.req[i] = MISS => e.after[i] = e.before[i]),
    \* the device rounds what it is given
    C("M02.returned", Ok(e), VecNear(e.ret, e.after, 0) /\ e.retmore = 0),
    C("M02.request_unchanged", TRUE, e.same = 1)
  >>
ReadClauses(e) == <<
    C("M02.read", TRUE, Ok(e) /\ VecNear(e.ret, e.after, 0) /\ e.retmore = 0),
    C("M02.names", TRUE, e.names = 1)
  >>
\* options that arrived, in the order of the configured ones
MeasureClauses(e) == <<
    C("M02.unknown_measurement", e.known = 0, e.exc # "none" /\ e.ncalls = 0),
    C("M02.measure_no_error", e.known = 1, Ok(e)),
    C("M02.function", e.known = 1, e.ncalls = 1 /\ e.fn = e.wantfn),
    C("M02.options", e.known = 1 /\ e.ncalls = 1, VecNear(e.got, e.want, 0) /\ e.texts = 1 /\ e.more = 0),
    C("M02.file_name", e.known = 1 /\ e.ncalls = 1 /\ e.named # 2, e.named = 1),
    C("M02.configuration", TRUE, VecNear(e.conf, e.confwas, 0) /\ e.confmore = 0),
    C("M02.result", Ok(e) /\ e.wantres # <<>>, VecNear(e.res, e.wantres, 1))
  >>
ConvertClauses(e) == <<
    C("M02.convert", TRUE, Ok(e) /\ e.shape = e.wantshape /\ VecNear(e.got, e.want, 0)),
    C("M02.accepted", Ok(e), e.accepted = 1)
  >>

\* ---- sessions: x number of the session that answers (0: none), vectors over all sessions
MayAnswer(e) == LET used == {i \in DOMAIN e.inuse : e.inuse[i] = 1}
                    shared == DOMAIN e.inuse \ {e.startedno}
                IN CASE e.to = 0 -> {e.startedno}
                     [] e.to = -1 -> IF used # {} THEN used ELSE shared
                     [] OTHER -> {e.to}
ConnectClauses(e) ==
    LET x == e.x
        bad == Refused(e.smdata[x] = 1, e.script)
        lost == e.broken = 1 /\ e.path[x] = "none"
    IN <<
    C("M03.session", e.x # 0, e.x \in MayAnswer(e)),
    C("M03.connected", TRUE, e.x # 0),
    C("M03.no_error", x # 0 /\ ~bad /\ ~lost, Ok(e)),
    C("M03.missing_smdata", x # 0 /\ bad, e.exc = "RuntimeError"),
    C("M03.missing_path", x # 0 /\ ~bad /\ lost, e.exc = "RuntimeError"),
    C("M03.connected_once", TRUE, \A i \in DOMAIN e.conns : e.conns[i] = IF i = x /\ e.inuse[i] = 0 THEN 1 ELSE 0),
    C("M03.script", x # 0, e.ran = (IF RunsScript(e.smdata[x] = 1, e.script) THEN 1 ELSE 0)),
    C("M03.path", x # 0 /\ ~bad /\ e.broken = 0, e.pathafter[x] = PathAfter(e.path[x], e.overwrite)),
    C("M03.warns", x # 0 /\ ~bad /\ e.broken = 0, (e.warned = 1) = Warns(e.path[x], e.overwrite)),
    C("M03.others", TRUE, \A i \in DOMAIN e.path : i # x => e.pathafter[i] = e.path[i] /\ e.smafter[i] = e.smdata[i]),
    C("M03.gui", x # 0 /\ e.to = 0, e.desktop = e.gui)
  >>
DropClauses(e) == << C("M03.dropped", TRUE, e.usedafter = e.wantused) >>

\* ---- analyses: val, var in the order of the declared parameters
QqdClauses(e) == <<
    C("M04.no_error", e.kind # "raise", Ok(e)),
    C("M04.errors_pass", e.kind = "raise", e.exc = "injected"),
    C("M04.labels", Ok(e), Len(e.val) = e.np /\ MISS \notin Range(e.val) /\ MISS \notin Range(e.var) /\ e.more = 0),
    C("M04.values", Ok(e), VecNear(e.val, e.want, 1)),
    C("M04.variances", Ok(e), VecNear(e.var, e.wantvar, 1)),
    C("M04.measured_once", Ok(e), e.calls = 1),
    C("M04.file", Ok(e), e.file = 1),
    C("M04.restored", Ok(e) /\ e.again # <<>>, VecNear(e.again, e.want, 1) /\ VecNear(e.againvar, e.wantvar, 1))
  >>

Clauses(e) == CASE e.op = "slice" -> SliceClauses(e)
                [] e.op = "index" -> IndexClauses(e)
                [] e.op = "tuple" -> TupleClauses(e)
                [] e.op = "view" -> ViewClauses(e)
                [] e.op = "set" -> SetClauses(e)
                [] e.op = "read" -> ReadClauses(e)
                [] e.op = "measure" -> MeasureClauses(e)
                [] e.op = "convert" -> ConvertClauses(e)
                [] e.op = "connect" -> ConnectClauses(e)
                [] e.op = "drop" -> DropClauses(e)
                [] e.op = "qqd" -> QqdClauses(e)

Init == /\ InitCounters
        /\ t \in DOMAIN Traces
        /\ l = 1
        /\ st = 0
Next == /\ l <= Len(Traces[t].events)
        /\ Report(t, l, Clauses(Traces[t].events[l]))
        /\ l' = l + 1 /\ t' = t /\ st' = st
Spec == Init /\ [][Next]_vars
==============================================================================
