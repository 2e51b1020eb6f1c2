------------------------------- MODULE SolverMC -------------------------------
(* Phases of the Nelder-Mead solver over all orders of costs (ties included). *)
(* costs: ordered costs of the simplex; while it is built, in the order of    *)
(* measurement.                                                               *)
EXTENDS Solver

CONSTANTS DIM, COSTS

VARIABLES phase, costs, refl, shrunk, asked, op
vars == <<phase, costs, refl, shrunk, asked, op>>

RECURSIVE Insert(_, _)
Insert(cs, c) == IF cs = <<>> THEN <<c>> ELSE IF c < Head(cs) THEN <<c>> \o cs ELSE <<Head(cs)>> \o Insert(Tail(cs), c)
RECURSIVE SortC(_)
SortC(cs) == IF cs = <<>> THEN <<>> ELSE Insert(SortC(SubSeq(cs, 1, Len(cs) - 1)), cs[Len(cs)])
Replace(cs, c) == SubSeq(Insert(cs, c), 1, Len(cs))

Init == /\ phase = "built_up" /\ \E c \in COSTS : costs = <<c>> /\ op = "init_" \o ToString(c)
        /\ refl = -1 /\ shrunk = <<>> /\ asked = FALSE

Ask == /\ ~asked /\ asked' = TRUE /\ op' = "ask"
       /\ phase' = IF phase = "start_iteration" THEN "reflect" ELSE phase
       /\ UNCHANGED <<costs, refl, shrunk>>

Name(c) == "measure_" \o ToString(c)
Build(c) == /\ asked /\ phase = "built_up"
            /\ IF Len(costs) = DIM THEN costs' = SortC(Append(costs, c)) /\ phase' = "start_iteration"
               ELSE costs' = Append(costs, c) /\ phase' = phase
            /\ UNCHANGED <<refl, shrunk>>
Reflect(c) == /\ asked /\ phase = "reflect"
              /\ \E n \in AfterReflect(costs, c) :
                    /\ phase' = IF n = "new" THEN "start_iteration" ELSE n
                    /\ costs' = IF n = "new" THEN Replace(costs, c) ELSE costs
                    /\ refl' = IF n = "new" THEN -1 ELSE c
              /\ UNCHANGED shrunk
Expand(c) == /\ phase = "expand"
             /\ phase' = "start_iteration"
             /\ costs' = Replace(costs, IF c < refl THEN c ELSE refl)
             /\ refl' = -1 /\ UNCHANGED shrunk
Outside(c) == /\ phase = "contract_outside"
              /\ \E n \in AfterOutside(refl, c) :
                    /\ phase' = IF n = "new" THEN "start_iteration" ELSE n
                    /\ costs' = IF n = "new" THEN Replace(costs, c) ELSE costs
              /\ refl' = -1 /\ UNCHANGED shrunk
Inside(c) == /\ phase = "contract_inside"
             /\ \E n \in AfterInside(costs, c) :
                    /\ phase' = IF n = "new" THEN "start_iteration" ELSE n
                    /\ costs' = IF n = "new" THEN Replace(costs, c) ELSE costs
             /\ refl' = -1 /\ UNCHANGED shrunk
Shrink(c) == /\ phase = "shrink"
             /\ IF Len(shrunk) + 1 = DIM
                THEN /\ costs' = SortC(<<costs[1]>> \o Append(shrunk, c))
                     /\ shrunk' = <<>> /\ phase' = "start_iteration"
                ELSE shrunk' = Append(shrunk, c) /\ UNCHANGED <<costs, phase>>
             /\ refl' = -1
\* a measurement nobody asked for at the beginning of an iteration
Unasked(c) == /\ ~asked /\ phase = "start_iteration"
              /\ costs' = IF c < costs[Len(costs)] THEN Replace(costs, c) ELSE costs
              /\ UNCHANGED <<phase, refl, shrunk>>
Measure == \E c \in COSTS : /\ Build(c) \/ Reflect(c) \/ (asked /\ (Expand(c) \/ Outside(c) \/ Inside(c) \/ Shrink(c)))
                               \/ Unasked(c)
                            /\ asked' = FALSE /\ op' = Name(c)
Next == Ask \/ Measure
Spec == Init /\ [][Next]_vars

Inv == /\ phase # "built_up" => Len(costs) = DIM + 1 /\ SortedSeq(costs)
       /\ phase = "built_up" => Len(costs) <= DIM
       /\ Len(shrunk) < DIM /\ (shrunk # <<>> => phase = "shrink")
       /\ (phase \in {"expand", "contract_outside"}) => refl >= 0
       /\ phase = "expand" => refl < costs[1]
       /\ phase = "contract_outside" => refl < costs[DIM + 1]
Smallest(cs) == CHOOSE c \in Range(cs) : \A d \in Range(cs) : c <= d
BestNeverLost == [][Smallest(costs') <= Smallest(costs)]_vars
LiveSpec == Spec /\ WF_vars(Ask) /\ WF_vars(Measure)
NewIterations == []<>(phase = "start_iteration" \/ (phase = "reflect"))
=============================================================================
