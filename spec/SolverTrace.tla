------------------------------ MODULE SolverTrace ------------------------------
(* Validates recorded calls of the solvers.                                   *)
(* cfg: kind "nm" | "newton" | "forward", desired (per parameter), span,      *)
(* rf (rescaling factors <<numerator, denominator>>), map (parameter -> gate  *)
(* number or 0), n (number of gates)                                          *)
EXTENDS Solver, TraceBase

VARIABLES t, l, st
vars == <<t, l, st>>
Cfg == Traces[t].cfg
Des == Cfg.desired

Ok(e) == e.exc = "none"

(* ------------------------------ Nelder-Mead ------------------------------ *)
Best(sx) == LET c == Costs(Des, sx) IN CHOOSE x \in Range(c) : \A y \in Range(c) : x <= y
NmUpdate(s, e) ==
    LET o == e.post
        ok == Ok(e)
        full == s.phase # "built_up"
        x == [p |-> e.p, v |-> e.v]
        c == Cost(Des, e.v)
        cs == Costs(Des, s.simplex)
        rc == Cost(Des, s.refl[1].v)
        others == SelectSeq(s.simplex, LAMBDA y : y.p # e.p)
        built == Append(others, x)
        unchanged == Kept(Des, s.simplex, o.simplex)
        taken(y) == Inserted(Des, s.simplex, y, o.simplex)
        must(set) == (o.phase \in set) \/ ("new" \in set /\ New(o.phase))
        \* outcome of a reflection
        reflected == LET a == AfterReflect(cs, c) IN
                     /\ must(a)
                     /\ IF New(o.phase) THEN taken(x) ELSE unchanged /\ o.refl = <<x>>
        plain == /\ New(o.phase) /\ IF c < cs[Len(cs)] THEN taken(x) ELSE unchanged
    IN <<
      C("S03.no_error", TRUE, ok),
      C("S03.position", ok, o.pos = e.p /\ o.vals = e.v),
      C("S03.built", ok /\ ~full, IF Len(built) = Cfg.n + 1
                                  THEN New(o.phase) /\ SortedSeq(Costs(Des, o.simplex)) /\ SameBag(o.simplex, built)
                                  ELSE o.phase = "built_up" /\ SameBag(o.simplex, built)),
      C("S03.reflect", ok /\ New(s.phase) /\ s.asked, reflected),
      C("S03.unasked", ok /\ New(s.phase) /\ ~s.asked, reflected \/ plain),
      C("S03.expand", ok /\ s.phase = "expand", New(o.phase) /\ (IF c < rc THEN taken(x) ELSE taken(s.refl[1]))),
      C("S03.contract_outside", ok /\ s.phase = "contract_outside",
            must(AfterOutside(rc, c)) /\ (IF New(o.phase) THEN taken(x) ELSE unchanged)),
      C("S03.contract_inside", ok /\ s.phase = "contract_inside",
            must(AfterInside(cs, c)) /\ (IF New(o.phase) THEN taken(x) ELSE unchanged)),
      C("S03.shrink", ok /\ s.phase = "shrink",
            IF Len(s.shrunk) + 1 = Cfg.n
            THEN /\ New(o.phase) /\ o.shrunk = <<>> /\ SortedSeq(Costs(Des, o.simplex))
                 /\ SameBag(o.simplex, <<s.simplex[1]>> \o Append(s.shrunk, x))
            ELSE o.phase = "shrink" /\ unchanged /\ o.shrunk = Append(s.shrunk, x)),
      C("S03.trials_forgotten", ok /\ full /\ s.phase # "shrink", o.shrunk = <<>>),
      C("S03.size", ok /\ full, Len(o.simplex) = Cfg.n + 1),
      C("S03.sorted", ok /\ full, SortedSeq(Costs(Des, o.simplex))),
      C("S03.best_kept", ok /\ (full \/ others = s.simplex), Best(o.simplex) <= Best(s.simplex)),
      C("S03.costs", ok, o.costs = Costs(Des, o.simplex))
    >>
NmSuggest(s, e) ==
    LET o == e.post
        ok == Ok(e)
        ph == Trial(s.phase)
    IN <<
      C("S03.suggest_no_error", TRUE, ok),
      C("S03.suggest_gates", ok, \A g \in DOMAIN e.req : IsNum(e.req[g])),
      C("S03.suggest_independent", ok /\ s.phase = "built_up", Independent(s.simplex, Cfg.span, e.req)),
      C("S03.suggest_trial", ok /\ s.phase # "built_up", TrialOK(ph, s.simplex, s.shrunk, e.req)),
      C("S03.suggest_keeps", ok, /\ o.simplex = s.simplex /\ (o.refl = s.refl \/ New(s.phase))
                                 /\ o.shrunk = s.shrunk /\ Trial(o.phase) = Trial(s.phase)
                                 /\ o.pos = s.pos /\ o.vals = s.vals)
    >>
NmEqual(s, o) == /\ o.simplex = s.simplex /\ o.shrunk = s.shrunk /\ Trial(o.phase) = Trial(s.phase)
                 /\ o.pos = s.pos /\ o.vals = s.vals /\ (New(s.phase) \/ o.refl = s.refl)

(* --------------------------------- Newton --------------------------------- *)
(* J: rows (parameters) in units of 1/2, columns: gates; zs: null space;      *)
(* asks: requests of the estimators, <<>> if none; seen: arguments they got   *)
Wanted(i) == Des[i] # NaN
FirstAsking(e) == {i \in DOMAIN Des : Wanted(i) /\ e.asks[i] # <<>> /\ \A j \in 1..(i - 1) : Wanted(j) => e.asks[j] = <<>>}
NewtonSuggest(s, e) ==
    LET ok == Ok(e)
        asking == FirstAsking(e)
        known == \A i \in DOMAIN Des : IsNum(s.vals[i])
        step == VSub(e.req, s.pos)
        diff == [i \in DOMAIN Des |-> IF Wanted(i) THEN Des[i] - s.vals[i] ELSE 0]
        num == ok /\ AllNum(e.req) /\ \A j \in DOMAIN step : Abs(step[j]) <= 16 * SC
    IN <<
      C("S01.no_error", TRUE, ok),
      C("S01.requested_point", ok /\ asking # {}, e.req = e.asks[CHOOSE i \in asking : TRUE]),
      C("harness.nullspace", TRUE, Certificate(e.J, e.zs)),
      C("S01.own_gates", ok, e.extra = 0 /\ \A g \in DOMAIN e.req : e.req[g] # MISS),
      C("S01.solves", num /\ asking = {} /\ known, LeastSquares(e.J, step, diff)),
      C("S01.shortest", num /\ asking = {} /\ known, Shortest(step, e.zs)),
      C("S01.finite", ok /\ asking = {} /\ known, AllNum(e.req)),
      C("S01.asks_in_terms_of_own_gates", ok, \A i \in DOMAIN e.told : Range(e.told[i].gates) = Range(e.order)),
      C("G02.told_jacobian", ok, \A i \in DOMAIN e.told : SameBag(e.told[i].jac, [k \in DOMAIN e.tuned |-> e.rows[e.tuned[k]]])),
      C("S01.suggest_keeps", ok, e.post = [pos |-> s.pos, vals |-> s.vals])
    >>
NewtonUpdate(s, e) ==
    LET ok == Ok(e) IN <<
      C("S02.no_error", TRUE, ok),
      C("S02.each_once", ok, \A i \in DOMAIN Des :
            IF Wanted(i) THEN Len(e.got[i]) = 1 ELSE e.got[i] = <<>>),
      C("S02.own_value", ok, \A i \in DOMAIN Des : \A k \in DOMAIN e.got[i] :
            e.got[i][k].v = e.v[i] /\ e.got[i][k].var = e.var[i]),
      C("S02.own_position", ok, \A i \in DOMAIN Des : \A k \in DOMAIN e.got[i] : e.got[i][k].p = e.p /\ e.got[i][k].isnew = 1),
      C("S02.remembers", ok, e.post = [pos |-> e.p, vals |-> e.v])
    >>

(* ------------------------------- Forwarding ------------------------------- *)
\* e.v: values in the units of the solver, times the rescaling factor gives the original value
Original(i, x) == RDiv(x * Cfg.rf[i][1], Cfg.rf[i][2])
FwdUpdate(s, e) == <<
      C("S04.no_error", TRUE, Ok(e)),
      C("S04.position", Ok(e), e.post.pos = Merge(s.pos, e.p)),
      C("S04.arguments_kept", Ok(e), e.kept = 1)
    >>
Mapped(g, s) == {i \in DOMAIN Cfg.map : Cfg.map[i] = g /\ s.lastv[i] # MISS}
FwdSuggest(s, e) == <<
      C("S04.suggest_no_error", TRUE, Ok(e)),
      C("S04.mapped", Ok(e) /\ s.measured = "yes", \A g \in DOMAIN e.req : \A i \in Mapped(g, s) :
            Near(e.req[g], Original(i, s.lastv[i]), 1)),
      C("S04.unmapped", Ok(e) /\ s.measured = "yes", \A g \in DOMAIN e.req : Mapped(g, s) = {} => e.req[g] = s.pos[g]),
      C("S04.before", Ok(e) /\ s.measured = "no", e.req = s.pos),
      C("S04.own_gates", Ok(e), e.extra = 0),
      C("S04.suggest_keeps", Ok(e), e.post.pos = s.pos)
    >>

(* -------------------------------- all kinds -------------------------------- *)
RestartClauses(s, e) == <<
      C("A05.solver_restart", TRUE, Ok(e) /\ e.post.pos = Merge(s.pos, e.p)),
      C("S03.restart_keeps", Cfg.kind = "nm" /\ Ok(e),
            e.post.simplex = s.simplex /\ Trial(e.post.phase) = Trial(s.phase) /\ e.post.shrunk = s.shrunk),
      C("S01.restart_told", Cfg.kind = "newton" /\ Ok(e), \A i \in DOMAIN e.restarts : e.restarts[i] = <<e.p>>)
    >>
ReloadClauses(s, e) == <<
      C("H02.solver", TRUE, Ok(e) /\ (IF Cfg.kind = "nm" THEN NmEqual(s, e.post)
                                      ELSE e.post.pos = s.pos /\ (Cfg.kind = "newton" => e.post.vals = s.vals)))
    >>
\* what the history records of the solver: the entries of the jacobian, if there is one
StateClauses(e) == <<
      C("S01.state", Cfg.kind = "newton", Ok(e) /\ e.got = e.rows /\ e.size = Len(Cfg.desired) * Cfg.n),
      C("S03.state", Cfg.kind = "nm", Ok(e) /\ e.size = 0),
      C("S04.state", Cfg.kind = "forward", Ok(e) /\ e.size = 0)
    >>
Clauses(s, e) ==
    CASE e.op = "update" /\ Cfg.kind = "nm" -> NmUpdate(s, e)
      [] e.op = "suggest" /\ Cfg.kind = "nm" -> NmSuggest(s, e)
      [] e.op = "update" /\ Cfg.kind = "newton" -> NewtonUpdate(s, e)
      [] e.op = "suggest" /\ Cfg.kind = "newton" -> NewtonSuggest(s, e)
      [] e.op = "update" /\ Cfg.kind = "forward" -> FwdUpdate(s, e)
      [] e.op = "suggest" /\ Cfg.kind = "forward" -> FwdSuggest(s, e)
      [] e.op = "restart" -> RestartClauses(s, e)
      [] e.op = "reload" -> ReloadClauses(s, e)
      [] e.op = "state" -> StateClauses(e)

Nm0(o, asked) == [phase |-> o.phase, simplex |-> o.simplex, refl |-> o.refl, shrunk |-> o.shrunk, pos |-> o.pos,
                  vals |-> o.vals, asked |-> asked]
After(s, e) ==
    IF e.op = "state" THEN s ELSE
    LET o == e.post IN
    CASE Cfg.kind = "nm" -> Nm0(o, IF e.op = "suggest" THEN TRUE ELSE IF e.op = "update" THEN FALSE ELSE s.asked)
      [] Cfg.kind = "newton" -> [pos |-> o.pos, vals |-> o.vals]
      [] OTHER -> [pos |-> o.pos, lastv |-> IF e.op = "update" THEN e.v ELSE s.lastv,
                   \* a restart moves the position; the suggestion follows with the next measurement
                   measured |-> IF e.op = "update" THEN "yes" ELSE IF e.op = "restart" THEN "stale" ELSE s.measured]
Start(tr) == CASE tr.cfg.kind = "nm" -> Nm0(tr.init, FALSE)
               [] tr.cfg.kind = "newton" -> [pos |-> tr.init.pos, vals |-> tr.init.vals]
               [] OTHER -> [pos |-> tr.init.pos, lastv |-> tr.init.lastv, measured |-> "no"]

Init == /\ InitCounters
        /\ t \in DOMAIN Traces
        /\ l = 1
        /\ st = Start(Traces[t])
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Traces[t].events[l] IN
             /\ Report(t, l, AsBefore("H02.solver_continues", t, l, Clauses(st, e)))
             /\ st' = After(st, e)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
