--------------------------- MODULE SimulatedTrace ---------------------------
(* Validates recorded uses of the simulated experiment.                      *)
(* cfg.sim[x][m]: simulator of measurement m of experiment x (0: none),      *)
(* cfg.own[x]: the measurements the experiment is built with,                *)
(* init.given: the voltages all experiments are built from                   *)
EXTENDS Simulated, TraceBase

VARIABLES t, l, st
vars == <<t, l, st>>
Cfg == Traces[t].cfg
S0(tr) == [v |-> [x \in DOMAIN tr.cfg.sim |-> tr.init.given], sim |-> tr.cfg.sim, given |-> tr.init.given]
Own(x) == Range(Cfg.own[x])
Ok(e) == e.exc = "none"
\* what all experiments are read to be
AllAs(s, e) == \A x \in DOMAIN e.all : e.all[x] = <<>> \/ e.all[x] = s.v[x]

Clauses(s, e) ==
    CASE e.op = "build" -> <<
           C("E05.built", MayBuild(Own(e.x), Cfg.sim[e.x]), Ok(e)),
           C("E05.refused", ~MayBuild(Own(e.x), Cfg.sim[e.x]), ~Ok(e)),
           C("E05.gates", Ok(e), e.names = [i \in 1..Len(s.given) |-> i]),
           C("E05.measurements", Ok(e), e.ms = Cfg.own[e.x]),
           C("E05.initial_voltages", Ok(e), AllAs(s, e)),
           C("E05.given_kept", TRUE, e.given = s.given)>>
      [] e.op = "read" -> <<
           C("E05.reads", TRUE, Ok(e) /\ e.got = s.v[e.x] /\ e.more = 0),
           C("E05.reading_keeps", TRUE, AllAs(s, e) /\ e.given = s.given)>>
      [] e.op = "set" -> LET s2 == Set(s, e.x, e.req) IN <<
           C("E05.sets", TRUE, Ok(e) /\ AllAs(s2, e)),
           C("E05.reports_set", Ok(e), \A g \in DOMAIN e.req : e.req[g] # MISS => e.ret[g] = e.req[g]),
           C("E05.only_own", Ok(e), \A g \in DOMAIN e.req : e.ret[g] \in {MISS, s2.v[e.x][g]}),
           C("E05.request_kept", TRUE, e.after = e.req /\ e.given = s.given)>>
      [] e.op = "measure" -> <<
           C("E05.asks_simulator", e.known = 1, e.calls = <<Asked(s, e.x, e.m)>>),
           C("E05.data_of_simulator", e.known = 1 /\ e.fail = 0, Ok(e) /\ e.data = 1),
           C("E05.errors_pass", e.known = 1 /\ e.fail = 1, e.exc = "injected"),
           C("E05.unknown", e.known = 0, ~Ok(e) /\ e.calls = <<>>),
           C("E05.measuring_keeps", TRUE, AllAs(s, e) /\ e.given = s.given /\ e.options = 1)>>
      [] e.op = "data" -> <<
           C("E05.data", TRUE, Ok(e) /\ Len(e.got) = Len(e.want) /\ VecNear(e.got, e.want, 2)),
           C("E05.data_size", TRUE, Ok(e) /\ e.size = e.wantsize),
           C("E05.found", Ok(e), VecNear(e.found, e.truth, e.tol)),
           C("E05.data_keeps", TRUE, e.options = 1)>>
      [] OTHER -> <<>>

After(s, e) == IF e.op = "set" THEN [v |-> Set(s, e.x, e.req).v, sim |-> s.sim, given |-> s.given] ELSE s

Init == /\ InitCounters
        /\ t \in DOMAIN Traces
        /\ l = 1
        /\ st = S0(Traces[t])
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Traces[t].events[l] IN
             /\ Report(t, l, Clauses(st, e))
             /\ st' = After(st, e)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
