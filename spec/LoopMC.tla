------------------------------- MODULE LoopMC -------------------------------
(* Exhaustive model of the tuning loop.  `op` is the operation that led to   *)
(* the state; the labelled graph is walked through the real Autotuner.       *)
EXTENDS Loop

CONSTANTS N,        \* number of groups
          VALUES    \* voltages of the (single) gate that are ever suggested

VARIABLES s, op
vars == <<s, op>>

Vec(x) == <<x>>
Init == /\ \E v \in VALUES :
             s = [n |-> N, idx |-> 0, status |-> FALSE, hasPend |-> FALSE, pend |-> <<>>,
                  volts |-> Vec(v), coh |-> TRUE, passed |-> {}]
        /\ op = "init"

Iter(r, v, name) == /\ s' = Iterate(s, [r |-> r, v |-> v])
                    /\ op' = name

Refused  == Phase(s) = "refused" /\ Iter("ok", <<>>, "refused")
JudgeT   == Phase(s) = "judge"   /\ Iter("tuned", <<>>, "tuned")
JudgeN   == Phase(s) = "judge"   /\ Iter("not", <<>>, "not")
JudgeR   == Phase(s) = "judge"   /\ Iter("raise", <<>>, "judge_raises")
Compute  == /\ Phase(s) = "compute"
            /\ \E v \in VALUES \cup {NaN, MISS} : Iter("ok", Vec(v), "suggest_" \o ToString(v))
ComputeR == Phase(s) = "compute" /\ Iter("raise", <<>>, "compute_raises")
Apply    == Phase(s) = "apply"   /\ Iter("ok", Merge(s.volts, s.pend), "apply")
ApplyR   == Phase(s) = "apply"   /\ Iter("raise", <<>>, "apply_raises")
DoRestart == /\ s.coh
             /\ \E v \in VALUES : s' = [Restart(s) EXCEPT !.volts = Vec(v)] /\ op' = "restart_" \o ToString(v)
DoTargets == s' = ChangeTargets(s) /\ op' = "targets"
Rename    == s' = [s EXCEPT !.coh = ~s.coh] /\ op' = "rename"

Next == \/ Refused \/ JudgeT \/ JudgeN \/ JudgeR \/ Compute \/ ComputeR \/ Apply \/ ApplyR
        \/ DoRestart \/ DoTargets \/ Rename

Spec == Init /\ [][Next]_vars

Inv == BottomUp(s) /\ OnlyOne(s) /\ CompleteSound(s) /\ s.idx \in 0..N

\* voltages change only by applying exactly the pending ones, or from outside before a restart
VoltsOnlyApplied == [][s'.volts # s.volts =>
                         \/ op' = "apply" /\ s'.volts = Merge(s.volts, s.pend) /\ Initial(s')
                         \/ Initial(s')]_vars
\* one position up only by a passed judgement
OneUp == [][s'.idx > s.idx => s'.idx = s.idx + 1 /\ op' = "tuned" /\ s'.volts = s.volts]_vars
\* a suggestion is computed only after a failed judgement and applied as it is
SuggestAfterFail == [][(s'.hasPend /\ ~s.hasPend) => s.status /\ ~s'.status /\ s'.idx = s.idx]_vars
\* a refused or failing iteration changes nothing
RefusedNothing == [][op' \in {"refused", "judge_raises", "compute_raises", "apply_raises"} => s' = s]_vars

\* liveness: if from some point on every judgement passes and nothing disturbs, tuning completes
Calm == s.coh /\ op \in {"init", "tuned", "apply"} \cup {"suggest_" \o ToString(v) : v \in VALUES}
LiveSpec == Spec /\ WF_vars(JudgeT \/ JudgeN \/ Apply \/ Compute)
Completes == (<>[](Calm \/ Complete(s))) => <>[](Complete(s) \/ op = "rename")
=============================================================================
