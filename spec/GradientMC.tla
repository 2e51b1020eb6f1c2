----------------------------- MODULE GradientMC -----------------------------
(* Life cycle of the gradient estimators based on finite differences: how    *)
(* many measurements were accepted, when the gradient is known, when the     *)
(* Kalman filter takes over.  `point` is where the last measurement was.     *)
EXTENDS Naturals, Sequences

CONSTANTS DIM

VARIABLES sym, self, cnt, known, mode, asked, based, op
vars == <<sym, self, cnt, known, mode, asked, based, op>>

Needed == IF sym THEN 2 * DIM ELSE DIM + 1

Init == /\ sym \in BOOLEAN /\ self \in BOOLEAN
        /\ cnt = 0 /\ known = FALSE /\ mode = "fd" /\ asked = FALSE /\ based = FALSE /\ op = "init"

Accept(n, name) ==
    /\ cnt' = n /\ known' = (n = Needed) /\ asked' = FALSE /\ op' = name
    /\ mode' = IF self /\ n = Needed THEN "kalman" ELSE mode
    /\ based' = TRUE /\ UNCHANGED <<sym, self>>
Ignore(name) == /\ asked' = FALSE /\ op' = name /\ based' = TRUE /\ UNCHANGED <<sym, self, cnt, known, mode>>

Ask == /\ op' = "ask" /\ asked' = ~known /\ UNCHANGED <<sym, self, cnt, known, mode, based>>
MeasureAsked == asked /\ ~known /\ Accept(cnt + 1, "measure_asked")
\* the present position: it is the first point of one sided differences and never one of symmetric ones
MeasureHere == ~known /\ IF ~sym /\ cnt = 0 THEN Accept(1, "measure_here") ELSE Ignore("measure_here")
\* a point that was already measured
MeasureAgain == ~known /\ cnt > 0 /\ Ignore("measure_again")
MeasureLater == known /\ Ignore("measure_later")
Restart == /\ op' = "restart" /\ asked' = FALSE /\ based' = FALSE
           /\ cnt' = IF known THEN cnt ELSE 0
           /\ UNCHANGED <<sym, self, known, mode>>
Reload == op' = "reload" /\ UNCHANGED <<sym, self, cnt, known, mode, asked, based>>

Next == Ask \/ MeasureAsked \/ MeasureHere \/ MeasureAgain \/ MeasureLater \/ Restart \/ Reload
Spec == Init /\ [][Next]_vars

Inv == /\ known = (cnt = Needed)
       /\ (mode = "kalman") = (self /\ known)
       /\ cnt <= Needed
Once == [][known => (known' /\ cnt' = cnt /\ mode' = mode)]_vars
LiveSpec == Spec /\ WF_vars(Ask /\ ~asked) /\ SF_vars(MeasureAsked)
Completes == (<>[](op # "restart")) => <>known
=============================================================================
