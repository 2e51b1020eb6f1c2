----------------------------- MODULE HistoryTrace -----------------------------
(* Validates what the accessors of a History return against the recorded       *)
(* iterations.  cfg.owner: group of each quantity; the driver numbers           *)
(* configurations of voltages (vid).                                            *)
EXTENDS Loop, History, TraceBase

VARIABLES t, l, st
vars == <<t, l, st>>
Cfg == Traces[t].cfg
\* groups sharing their gradient estimators share these quantities
Owner == [i \in DOMAIN Cfg.owner |-> Range(Cfg.owner[i])]
Ok(e) == e.exc = "none"

\* rows as accessors return them: [v, c, f]; NaN where a row has no value
CellOK(want, got) == IF want = MISS THEN got \in {MISS, NaN}
                     ELSE IF want = NaN THEN got \in {MISS, NaN} ELSE Near(want, got, 1)
RowsOK(want, got) ==
    /\ Len(want) = Len(got.v)
    /\ \A r \in DOMAIN want : VecNear(want[r].v, got.v[r], 1)
CellsOK(want, got, kinds) ==
    /\ Len(want) = Len(got.c)
    /\ \A r \in DOMAIN want : \A i \in DOMAIN Cfg.owner :
          Cfg.kind[i] \in kinds => CellOK(want[r].c[i], got.c[r][i])
PathsOK(want, got) == Len(want) = Len(got.f) /\ \A r \in DOMAIN want : want[r].f = got.f[r]

\* the group judged by the iteration that started in e.pre
Was(e) == [n |-> Cfg.n, idx |-> e.pre.idx, status |-> e.pre.status = 1, hasPend |-> e.pre.hasPend = 1, pend |-> <<>>, coh |-> TRUE]
Judged(e) == IF Phase(Was(e)) = "judge" THEN e.pre.idx + 1 ELSE 0
Now(s, e) == Since(s.since, Phase(Was(e)), Judged(e))
X(s, e) == [id |-> e.vid, v |-> e.v, cur |-> e.cur, gs |-> Now(s, e), f |-> e.f]

\* Plots.  A curve shows a column of the history: a point per row, none where there is no value
Column(rows, i) == [r \in DOMAIN rows |-> rows[r].c[i]]
CurveOK(want, got) == Len(want) = Len(got) /\ \A r \in DOMAIN want : CellOK(want[r], got[r])
\* error bars: the square of the half length is the variance; rows without a value or of unbounded variance have none
Drawable(x) == IsNum(x)
BarsOK(value, var, got) ==
    /\ Len(value) = Len(got)
    /\ \A r \in DOMAIN value : IF Drawable(value[r]) /\ Drawable(var[r]) THEN Near(var[r], got[r], 4)
                              ELSE ~Drawable(got[r])
NoBars(got) == \A r \in DOMAIN got : got[r] = MISS
IsPerm(a, b) == Len(a) = Len(b) /\ Range(a) = Range(b)

\* curves of one gradient: one per gate, unless nothing is known so far
GradientOK(rows, cells, curves, cov) ==
    LET known == SelectSeq(cells, LAMBDA i : \E r \in DOMAIN rows : rows[r].c[i] \notin {MISS, NaN})
        drawn == [k \in DOMAIN curves |-> curves[k][1]]
    IN /\ Range(known) \subseteq Range(drawn)
       /\ Range(drawn) \subseteq Range(cells)
       /\ Cardinality(Range(drawn)) = Len(drawn)
       /\ \A k \in DOMAIN curves :
             /\ CurveOK(Column(rows, curves[k][1]), curves[k][3])
             /\ IF cov THEN curves[k][2] # 0 /\ BarsOK(Column(rows, curves[k][1]), Column(rows, curves[k][2]), curves[k][4])
                ELSE NoBars(curves[k][4])

\* panels of one row of the history: [evaluator, raw data, marks, deviation of the fit]
MarksOf(e, raw) == SelectSeq(e.marks, LAMBDA m : m[1] = raw)
PanelOK(row, e, p) == /\ p[1] # 0
                      /\ p[2] = row.c[p[1]]
                      /\ p[3] = [k \in DOMAIN MarksOf(e, p[1]) |-> row.c[MarksOf(e, p[1])[k][2]]]
                      /\ p[4] <= SC \div 20
PanelsOK(row, e, panels) == /\ IsPerm([k \in DOMAIN panels |-> panels[k][1]], SelectSeq(e.asked, LAMBDA i : row.c[i] # MISS))
                            /\ \A k \in DOMAIN panels : PanelOK(row, e, panels[k])

Clauses(s, e) ==
    CASE e.op = "append" ->
           LET rows == AppendRow(s.rows, X(s, e), Owner)
               ok == Ok(e) /\ e.looked = 1
           IN <<
             C("Y01.appends", TRUE, Ok(e)),
             C("Y01.voltages", ok, RowsOK(rows, e.got)),
             C("Y01.parameters", ok, CellsOK(rows, e.got, {"value"})),
             C("Y01.gradients", ok, CellsOK(rows, e.got, {"grad", "cov"})),
             C("Y01.raw_data", ok, CellsOK(rows, e.got, {"raw", "mark"})),
             C("Y01.number", ok, e.got.number = Len(rows) /\ e.got.raws = Len(rows)),
             C("Y01.tuner_kept", TRUE, e.kept = 1),
             C("Y02.paths", ok /\ Cfg.stored = 1, PathsOK(rows, e.got)),
             C("Y03.gradient_names", ok, e.got.extra = 0),
             C("Y03.values", ok, CellsOK(rows, e.got, {"value", "std"})),
             C("Y03.covariances", ok, CellsOK(rows, e.got, {"grad", "var", "cov"}))
           >>
      [] e.op = "rebuilt" -> <<
             C("Y02.rebuilds", TRUE, Ok(e)),
             C("Y02.same_rows", Ok(e), RowsOK(s.rows, e.got) /\ CellsOK(s.rows, e.got, {"value", "std", "grad", "var", "cov", "raw", "mark"})),
             C("Y02.same_as_live", Ok(e), e.got = e.live),
             C("Y02.same_paths", Ok(e), PathsOK(s.rows, e.got)),
             C("Y03.rebuilt_names", Ok(e), e.got.extra = 0)
           >>
      [] e.op = "single" ->
           LET rows == AppendRow(<<>>, X(s, e), Owner) IN <<
             C("Y02.single", TRUE, Ok(e) /\ RowsOK(rows, e.got) /\ CellsOK(rows, e.got, {"value", "std", "grad", "var", "cov", "raw", "mark"})),
             C("Y02.single_path", Ok(e), PathsOK(rows, e.got))
           >>
      [] e.op = "plot" -> <<
             C("Y04.plots", TRUE, Ok(e)),
             C("Y04.voltages", Ok(e),
                 /\ [k \in DOMAIN e.v |-> e.v[k][1]] = e.gates
                 /\ \A k \in DOMAIN e.v : VecNear([r \in DOMAIN s.rows |-> s.rows[r].v[e.v[k][1]]], e.v[k][2], 1)),
             C("Y04.parameters", Ok(e),
                 /\ Len(e.p) = Len(e.ps)
                 /\ \A k \in DOMAIN e.p : e.p[k][1] = 1 /\ CurveOK(Column(s.rows, e.ps[k][1]), e.p[k][2])),
             C("Y04.parameter_errors", Ok(e) /\ Len(e.p) = Len(e.ps),
                 \A k \in DOMAIN e.p : IF e.var = 1 THEN BarsOK(Column(s.rows, e.ps[k][1]), Column(s.rows, e.ps[k][2]), e.p[k][3])
                                       ELSE NoBars(e.p[k][3])),
             C("Y04.gradients", Ok(e) /\ e.gs # <<>>,
                 /\ Len(e.g) = Len(e.gs)
                 /\ \A k \in DOMAIN e.g : GradientOK(s.rows, e.gs[k], e.g[k], e.cov = 1))
           >>
      \* windows of the graphical interface; every one shows all that is recorded
      [] e.op = "windows" -> <<
             C("U04.readable", TRUE, Ok(e)),
             C("U04.panels", Ok(e),
                 \A w \in DOMAIN e.p : IsPerm([k \in DOMAIN e.p[w] |-> e.p[w][k][1]], [k \in DOMAIN e.ps |-> e.ps[k][1]])),
             C("U04.parameters", Ok(e),
                 \A w \in DOMAIN e.p : \A k \in DOMAIN e.p[w] :
                     e.p[w][k][2] = 1 /\ e.p[w][k][1] # 0 /\ CurveOK(Column(s.rows, e.p[w][k][1]), e.p[w][k][3])),
             C("U04.errors", Ok(e),
                 \A w \in DOMAIN e.p : \A k \in DOMAIN e.p[w] : \A i \in DOMAIN e.ps : e.ps[i][1] = e.p[w][k][1] =>
                     BarsOK(Column(s.rows, e.ps[i][1]), Column(s.rows, e.ps[i][2]), e.p[w][k][4])),
             C("U04.gradient_panels", Ok(e),
                 \A w \in DOMAIN e.g : IsPerm([k \in DOMAIN e.g[w] |-> e.g[w][k][1]], [k \in DOMAIN e.ps |-> e.ps[k][1]])),
             C("U04.gradients", Ok(e),
                 \A w \in DOMAIN e.g : \A k \in DOMAIN e.g[w] : \A i \in DOMAIN e.ps : e.ps[i][1] = e.g[w][k][1] =>
                     GradientOK(s.rows, e.gs[i], e.g[w][k][2], TRUE))
           >>
      [] e.op = "plot_data" -> <<
             C("Y04.plots_data", TRUE, Ok(e) /\ e.kept = 1),
             C("Y04.data", Ok(e), /\ Len(e.rows) = e.last - e.first + 1
                                  /\ \A k \in DOMAIN e.rows : PanelsOK(s.rows[e.first + k - 1], e, e.rows[k]))
           >>
      [] e.op = "reload" -> <<
             C("Y02.reload_state", TRUE, Ok(e) /\ e.a = e.b)
           >>
      [] OTHER -> <<>>

Step(s, e) ==
    CASE e.op = "append" -> [s EXCEPT !.rows = AppendRow(@, X(s, e), Owner), !.since = {}]
      \* an iteration that the history is not told of
      [] e.op = "skip" -> [s EXCEPT !.since = Now(s, e)]
      [] e.op = "restart" -> [s EXCEPT !.since = {}]
      [] OTHER -> s

Start == [rows |-> <<>>, since |-> {}]
Init == /\ InitCounters
        /\ t \in DOMAIN Traces
        /\ l = 1
        /\ st = Start
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Traces[t].events[l]
           IN Report(t, l, Clauses(st, e)) /\ st' = Step(st, e)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
==============================================================================
