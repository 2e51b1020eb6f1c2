----------------------------- MODULE Simulated ------------------------------
(* The simulated experiment: gates with voltages, measurements answered by   *)
(* simulators.                                                               *)
(*                                                                           *)
(* State s:                                                                  *)
(*   v      voltages of all gates of every experiment                        *)
(*   sim    per experiment: the simulator of every measurement, 0: none      *)
(*   given  the voltages the experiments were built from (never change)      *)
EXTENDS Enc

\* an experiment is built if there is a simulator for each of its measurements
MayBuild(own, sim) == \A m \in own : sim[m] # 0
\* req: MISS for gates that are not named
Set(s, x, req) == [s EXCEPT !.v[x] = Merge(@, req)]
\* what is asked of the simulators by a measurement: one simulator, at the present voltages
Asked(s, x, m) == [sim |-> s.sim[x][m], m |-> m, v |-> s.v[x]]
=============================================================================
