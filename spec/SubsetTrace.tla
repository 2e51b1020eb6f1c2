---------------------------- MODULE SubsetTrace ----------------------------
(* Validates recorded runs of SubsetTuner and SensingDotTuner.               *)
(* cfg: kind "subset" | "sensing", max, num, rf (factors as fractions per    *)
(* parameter), nevals, cheap/exp: parameters of the cheap and expensive      *)
(* evaluators, map: gate of a parameter (0: none), own: gates of the solver. *)
EXTENDS Subset, TraceBase

VARIABLES t, l, st
vars == <<t, l, st>>
Cfg == Traces[t].cfg

S0(tr) == [last |-> tr.init.last, failed |-> tr.init.failed = 1, good |-> tr.init.good, tuned |-> tr.init.tuned,
           steps |-> 0, reached |-> TRUE, range |-> -1, target |-> tr.init.target,
           vals |-> tr.init.vals, vars |-> tr.init.vars, raw |-> <<>>]

KnownGood(s) == IF Cfg.kind = "subset" THEN s.good ELSE s.tuned
Updates(e) == SelectSeq(e.solver, LAMBDA c : c.k = "update")
Suggests(e) == SelectSeq(e.solver, LAMBDA c : c.k = "suggest")
SameBooks(s, o) == o.good = s.good /\ o.tuned = s.tuned
SameVals(s, o) == o.vals = s.vals /\ o.vars = s.vars
Appended(old, new, v) == new = Append(old, v)

\* the rescaled value
Resc(raw, f, pow) == IF ~IsNum(raw) THEN raw
                     ELSE IF pow = 1 THEN RDiv(raw * f[2], f[1]) ELSE RDiv(raw * f[2] * f[2], f[1] * f[1])
RescAll(raws, pow) == [p \in DOMAIN raws |-> Resc(raws[p], Cfg.rf[p], pow)]
ScaledAll(xs, raws, pow) == \A p \in DOMAIN raws : (xs[p] # MISS) => Scaled(xs[p], raws[p], Cfg.rf[p], pow)
\* entries of the parameters that were not measured are as before
Kept(old, new, measured) == \A p \in DOMAIN old : p \notin measured => new[p] = old[p]

(* ------------------------------- subset ---------------------------------- *)
SubJudge(s, e) ==
    LET o    == e.post
        T    == s.target
        meas == e.nev # 0
        ok   == e.exc = "none"
        \* values of the specification: what was measured, rescaled (as recorded by the code if that is right)
        up   == Updates(e)
        undef == \E r \in RelevantRows(T) : e.raw[r] = NaN
        rv   == RescAll(e.raw, 1)
        rvar == RescAll(e.rawvar, 2)
        pass == ~undef /\ Passes(T, rv)
    IN <<
      C("T01.no_error", TRUE, e.exc # "raised"),
      C("T01.failing_nothing", e.exc = "injected",
            SameBooks(s, o) /\ SameVals(s, o) /\ (o.failed = 1) = s.failed /\ Len(up) = 0),
      C("T01.measures_all", ok /\ meas, e.nev = Cfg.nevals),
      C("T02.must_measure", ok /\ MustMeasure(s, Cfg.num), meas),
      C("T01.not_measured_not_passed", ok /\ ~meas, e.ret = 0),
      C("T01.not_measured_nothing", ok /\ ~meas,
            SameBooks(s, o) /\ SameVals(s, o) /\ (o.failed = 1) = s.failed /\ Len(up) = 0),
      C("T01.verdict", ok /\ meas /\ ~undef, e.ret = (IF pass THEN 1 ELSE 0)),
      C("T01.undefined_fails", ok /\ meas /\ undef, e.ret = 0),
      C("T01.recorded", ok /\ meas,
            \A r \in RelevantRows(T) : Near(o.vals[r], rv[r], 1) /\ Near(o.vars[r], rvar[r], 1)),
      C("T01.measurable", ok /\ meas /\ ~undef, Appended(s.good, o.good, e.v)),
      C("T01.tuned", ok /\ meas /\ ~undef, o.tuned = IF pass THEN Append(s.tuned, e.v) ELSE s.tuned),
      C("T01.solver_once", ok /\ meas /\ ~undef,
            /\ Len(up) = 1
            /\ up[1].v = e.v
            /\ \A r \in DOMAIN T : Near(up[1].vals[r], rv[r], 1) /\ Near(up[1].vars[r], rvar[r], 1)),
      C("T01.last_voltages", ok, o.last = e.v),
      C("T03.undefined_nothing", ok /\ meas /\ undef, SameBooks(s, o) /\ Len(up) = 0 /\ o.failed = 1),
      C("T03.recovery_ends", ok /\ meas /\ ~undef, o.failed = 0),
      C("T05.recorded", ok /\ meas, ScaledAll(o.vals, e.raw, 1) /\ ScaledAll(o.vars, e.rawvar, 2)),
      C("T05.solver", ok /\ Len(up) > 0, ScaledAll(up[1].vals, e.raw, 1) /\ ScaledAll(up[1].vars, e.rawvar, 2))
    >>

SubNext(s, e) ==
    LET o == e.post
        ok == e.exc = "none"
        to == IF Len(Suggests(e)) > 0 THEN Merge(s.last, Suggests(e)[1].v) ELSE s.last
        good == KnownGood(s)
        small == AllNum(to) /\ AllNum(e.res) /\ AllNum(s.last) /\ Small(QVec(s.last, to)) /\ Small(QVec(s.last, e.res))
        s2 == Suggested(s, to, Cfg.max)
    IN <<
      C("T02.no_error", TRUE, ok),
      C("T02.asks_solver", ok /\ ~s.failed, Len(Suggests(e)) >= 1),
      C("G02.told_solver", ok /\ ~s.failed /\ Len(Suggests(e)) >= 1, Suggests(e)[1].ps = e.ps),
      C("T02.all_gates", ok, \A g \in DOMAIN s.last : s.last[g] # MISS => e.res[g] # MISS),
      C("T02.step", ok /\ ~s.failed /\ small, StepOK(s.last, to, Cfg.max, e.res)),
      C("T02.others_unchanged", ok /\ ~s.failed /\ Len(Suggests(e)) > 0,
            \A g \in DOMAIN s.last : Suggests(e)[1].v[g] = MISS => Near(e.res[g], s.last[g], 1)),
      C("T02.at_most", ok /\ ~s.failed, s2.steps <= Cfg.num),
      C("T02.no_overshoot", ok /\ ~s.failed /\ Cfg.max # NaN /\ s2.steps > 1 /\ s2.range >= 0 /\ small,
            s2.steps * ToQ(Cfg.max) <= s2.range + 4),
      C("T03.half_way", ok /\ s.failed /\ good # <<>>, MidOK(s.last, Last(good), e.res)),
      C("T03.no_measurement", ok, e.nev = 0 /\ Len(Updates(e)) = 0 /\ SameBooks(s, o) /\ SameVals(s, o)),
      C("T01.next_records_nothing", ok, SameBooks(s, o) /\ SameVals(s, o) /\ o.last = s.last
                                        /\ (o.failed = 1) = s.failed)
    >>

(* ------------------------------- sensing --------------------------------- *)
Rows(ps) == Range(ps)
SenJudge(s, e) ==
    LET o    == e.post
        T    == s.target
        ok   == e.exc = "none"
        up   == Updates(e)
        ch   == Rows(Cfg.cheap)
        ex   == Rows(Cfg.exp)
        undef == \E p \in ch : e.raw[p] = NaN
        rv   == RescAll(e.raw, 1)
        below(c) == \E p \in ch : T[p][c] # NaN /\ Le(rv[p], T[p][c])
        pass == ~undef /\ ~below(2)
        expensive == ~undef /\ ~pass /\ below(5)
        \* values of the parameters measured by the most detailed measurement; raw2 are those of the expensive one
        val(p)  == Resc(IF expensive /\ p \in ex THEN e.raw2[p] ELSE e.raw[p], Cfg.rf[p], 1)
        vari(p) == Resc(IF expensive /\ p \in ex THEN e.rawvar2[p] ELSE e.rawvar[p], Cfg.rf[p], 2)
        given == IF expensive THEN ex ELSE ch
    IN <<
      C("T04.no_error", TRUE, e.exc # "raised"),
      C("T04.cheap_first", ok, e.ncheap = Cfg.nevals /\ e.first = "cheap"),
      C("T04.verdict", ok, e.ret = (IF pass THEN 1 ELSE 0)),
      C("T04.passed_nothing_else", ok /\ pass, e.nexp = 0 /\ Len(e.solver) = 0),
      C("T04.expensive_exactly_if", ok, e.nexp = (IF expensive THEN Cfg.nexp ELSE 0)),
      C("T04.solver_once", ok /\ ~pass /\ ~undef, Len(up) = 1),
      C("T04.solver_values", ok /\ ~pass /\ ~undef /\ Len(up) = 1,
            /\ up[1].v = e.v
            /\ \A p \in DOMAIN T : IF p \in given
                   THEN Near(up[1].vals[p], val(p), 1) /\ Near(up[1].vars[p], vari(p), 1)
                   ELSE up[1].vals[p] = MISS),
      C("T04.recorded", ok /\ ~undef,
            \A p \in ch \cup given : Near(o.vals[p], val(p), 1) /\ Near(o.vars[p], vari(p), 1)),
      C("T04.others_kept", ok, Kept(s.vals, o.vals, ch \cup given) /\ Kept(s.vars, o.vars, ch \cup given)),
      C("T04.tuned", ok, o.tuned = IF pass THEN Append(s.tuned, e.v) ELSE s.tuned),
      C("T01.last_voltages", ok, o.last = e.v),
      C("T03.undefined_nothing", ok /\ undef,
            e.ret = 0 /\ SameBooks(s, o) /\ Len(up) = 0 /\ o.failed = 1 /\ e.nexp = 0),
      C("T03.recovery_ends", ok /\ ~undef, o.failed = 0),
      C("T05.recorded", ok, \A p \in ch \cup given : LET second == expensive /\ p \in ex IN
            /\ Scaled(o.vals[p], IF second THEN e.raw2[p] ELSE e.raw[p], Cfg.rf[p], 1)
            /\ Scaled(o.vars[p], IF second THEN e.rawvar2[p] ELSE e.rawvar[p], Cfg.rf[p], 2)),
      C("T05.solver", ok /\ Len(up) > 0, \A p \in given : LET second == expensive /\ p \in ex IN
            Scaled(up[1].vals[p], IF second THEN e.raw2[p] ELSE e.raw[p], Cfg.rf[p], 1))
    >>

\* values in original units handed on since the last successful measurement are in s.raw (MISS: not measured)
SenNext(s, e) ==
    LET o == e.post
        ok == e.exc = "none"
        good == KnownGood(s)
    IN <<
      C("T04.next_no_error", TRUE, ok),
      C("T03.half_way", ok /\ s.failed /\ good # <<>>, MidOK(s.last, Last(good), e.res)),
      C("T04.asks_solver", ok /\ ~s.failed, Len(Suggests(e)) >= 1),
      C("T04.as_suggested", ok /\ ~s.failed /\ Len(Suggests(e)) > 0,
            \A g \in DOMAIN s.last : Suggests(e)[1].v[g] # MISS => e.res[g] = Suggests(e)[1].v[g]),
      C("T04.others_unchanged", ok /\ ~s.failed /\ Len(Suggests(e)) > 0,
            \A g \in DOMAIN s.last : Suggests(e)[1].v[g] = MISS => e.res[g] \in {MISS, s.last[g]}),
      C("T05.original_units", ok /\ ~s.failed /\ s.raw # <<>> /\ Cfg.forwarding = 1,
            \A p \in DOMAIN s.raw : (s.raw[p] # MISS /\ Cfg.map[p] # 0) => Near(e.res[Cfg.map[p]], s.raw[p], 1)),
      C("T05.records_untouched", ok, SameVals(s, o)),
      C("T03.no_measurement", ok, e.nev = 0 /\ Len(Updates(e)) = 0 /\ SameBooks(s, o) /\ SameVals(s, o)),
      C("T01.next_records_nothing", ok, SameBooks(s, o) /\ o.last = s.last /\ (o.failed = 1) = s.failed)
    >>

RestartClauses(s, e) == <<
      C("T02.restart", TRUE, e.exc = "none" /\ SameBooks(s, e.post)),
      C("T01.restart_measures_nothing", TRUE, e.nev = 0 /\ SameVals(s, e.post) /\ Len(Updates(e)) = 0)
    >>

\* s.target, e.target: as requested
TargetClauses(s, e) == <<
      C("T01.targets_measure_nothing", TRUE,
            e.exc = "none" /\ e.nev = 0 /\ SameBooks(s, e.post) /\ Len(Updates(e)) = 0 /\ e.post.last = s.last)
    >>

Clauses(s, e) ==
    CASE e.op = "judge" -> IF Cfg.kind = "subset" THEN SubJudge(s, e) ELSE SenJudge(s, e)
      [] e.op = "next" -> IF Cfg.kind = "subset" THEN SubNext(s, e) ELSE SenNext(s, e)
      [] e.op = "restart" -> RestartClauses(s, e)
      [] e.op = "targets" -> TargetClauses(s, e)
      [] OTHER -> <<C("harness.none", TRUE, TRUE)>>

Resync(s, o) == [s EXCEPT !.last = o.last, !.failed = (o.failed = 1), !.good = o.good, !.tuned = o.tuned,
                          !.vals = o.vals, !.vars = o.vars]
After(s, e) ==
    LET o == e.post
        up == Updates(e)
    IN Resync(
      CASE e.op = "judge" /\ e.exc = "none" /\ Cfg.kind = "subset" ->
              Judged(s, e.nev # 0, FALSE, FALSE, e.v)
        [] e.op = "judge" /\ e.exc = "none" ->
              [s EXCEPT !.raw = IF Len(up) = 0 THEN @ ELSE e.given]
        [] e.op = "next" /\ e.exc = "none" /\ Cfg.kind = "subset" ->
              LET to == IF Len(Suggests(e)) > 0 THEN Merge(s.last, Suggests(e)[1].v) ELSE s.last IN
              IF AllNum(to) /\ AllNum(s.last) /\ Small(QVec(s.last, to)) THEN Suggested(s, to, Cfg.max)
              ELSE [s EXCEPT !.steps = @ + 1]
        [] e.op = "restart" -> [s EXCEPT !.steps = 0, !.reached = FALSE, !.range = -1, !.raw = <<>>]
        [] e.op = "targets" -> [s EXCEPT !.target = e.target]
        [] OTHER -> s, o)

Init == /\ InitCounters
        /\ t \in DOMAIN Traces
        /\ l = 1
        /\ st = S0(Traces[t])
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Traces[t].events[l] IN
             /\ Report(t, l, Clauses(st, e))
             /\ st' = After(st, e)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
