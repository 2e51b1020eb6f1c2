-------------------------------- MODULE Loop --------------------------------
(* The tuning loop: a hierarchy of parameter groups (1 is the lowest), a     *)
(* position in it, a judgement and pending voltages.                         *)
(*                                                                           *)
(* State s:                                                                  *)
(*   n        number of groups                                               *)
(*   idx      number of groups passed at the present voltages                *)
(*   status   the group idx + 1 was judged and failed                        *)
(*   hasPend, pend   voltages to be applied (MISS: gate not named)           *)
(*   volts    voltages of the experiment                                     *)
(*   coh      gates of all members are known to the experiment               *)
(*   passed   ghost: groups that passed since the last change                *)
EXTENDS Enc

Complete(s) == s.idx = s.n

Phase(s) == CASE ~s.coh -> "refused"
              [] Complete(s) -> "refused"
              [] s.hasPend /\ HasNaN(s.pend) -> "refused"
              [] s.hasPend -> "apply"
              [] s.status -> "compute"
              [] OTHER -> "judge"

Actor(s) == IF Phase(s) \in {"judge", "compute"} THEN s.idx + 1 ELSE 0

\* out: outcome of the only call made: r is "raise", "tuned", "not" or "ok",
\* v the suggestion of a group or the voltages the experiment has set
Iterate(s, out) ==
    CASE Phase(s) = "refused" \/ out.r = "raise" -> s
      [] Phase(s) = "apply"   -> [s EXCEPT !.idx = 0, !.hasPend = FALSE, !.pend = <<>>,
                                           !.volts = out.v, !.passed = {}]
      [] Phase(s) = "compute" -> [s EXCEPT !.hasPend = TRUE, !.pend = out.v, !.status = FALSE]
      [] out.r = "tuned"      -> [s EXCEPT !.idx = s.idx + 1, !.passed = @ \cup {s.idx + 1}]
      [] OTHER                -> [s EXCEPT !.status = TRUE]

Reset(s) == [s EXCEPT !.idx = 0, !.status = FALSE, !.hasPend = FALSE, !.pend = <<>>, !.passed = {}]
Restart(s) == Reset(s)
ChangeTargets(s) == Reset(s)

\* parameters a group is told to be tuned already; targeted: per group, those with a target
TunedBelow(s, targeted) == UNION {Range(targeted[i]) : i \in 1..s.idx}

\* a value x (rescaled) is accepted by a row [desired, minimum, maximum, tolerance, cost threshold, factor] of
\* the target of a group; slack: rounding
Accepted(kind, row, x, slack) ==
    IF kind = "subset"
    THEN row[1] = NaN \/ row[4] = NaN \/ Lt(Dist(row[1], x), IF IsNum(row[4]) THEN row[4] + slack ELSE row[4])
    ELSE row[2] = NaN \/ Lt(row[2], IF IsNum(x) THEN x + slack ELSE x)
AllAccepted(groups) == \A i \in DOMAIN groups : \A j \in DOMAIN groups[i].rows :
                          Accepted(groups[i].kind, groups[i].rows[j][2], groups[i].rows[j][1], 2)

(* properties of the design *)
BottomUp(s)  == s.passed = 1..s.idx
OnlyOne(s)   == ~(s.status /\ s.hasPend)
CompleteSound(s) == Complete(s) => s.passed = 1..s.n
Initial(s)   == s.idx = 0 /\ ~s.status /\ ~s.hasPend
=============================================================================
