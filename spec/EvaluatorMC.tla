----------------------------- MODULE EvaluatorMC -----------------------------
(* Lead scans with failures in every call, and evaluations of good, bad and   *)
(* missing data in any order.                                                 *)
EXTENDS Evaluator

CONSTANTS K,      \* scans per evaluation
          EVALS   \* evaluations per behaviour
GATES == 1..2
W == 1
VOLTS == {<<0, 0>>, <<4, 8>>}

VARIABLES s, before, f, last, n, op
vars == <<s, before, f, last, n, op>>

Init == /\ \E sg \in [1..K -> GATES] : s = [Scan0(<<0, 0>>, sg) EXCEPT !.pc = "idle"]
        /\ before = <<0, 0>>
        /\ f = Fit0
        /\ last = "none"
        /\ n = 0
        /\ op = "init"

Begin == /\ s.pc \in {"idle", "over"}
         /\ n < EVALS
         /\ \E v \in VOLTS : /\ before' = v
                             /\ s' = Scan0(v, s.sg)
         /\ n' = n + 1
         /\ op' = "begin"
         /\ UNCHANGED <<f, last>>
Do(pc, s2, name) == s.pc = pc /\ s' = s2 /\ op' = name /\ UNCHANGED <<before, f, last, n>>
\* a part of the gates was set
Partly(a, b) == {[g \in GATES |-> IF g \in part THEN b[g] ELSE a[g]] : part \in SUBSET GATES}
Scan == \/ Do("read", Read(s), "read")
        \/ Do("read", ReadRaises(s), "read_raises")
        \/ s.pc = "shift" /\ Do("shift", ShiftOk(s, W), "shift")
        \/ s.pc = "shift" /\ \E v \in Partly(s.volts, Shifted(s.found, s.sg[s.i], W)) :
                Do("shift", ShiftRaises(s, v), IF v = s.volts THEN "shift_raises" ELSE "shift_partly")
        \/ Do("measure", MeasureOk(s), "measure")
        \/ Do("measure", MeasureRaises(s), "measure_raises")
        \/ Do("restore", RestoreOk(s), "restore")
        \/ \E v \in Partly(s.volts, s.found) :
                Do("restore", RestoreRaises(s, v), IF v = s.volts THEN "restore_raises" ELSE "restore_partly")
Fit == /\ s.pc = "idle"
       /\ f.n < EVALS
       /\ \E r \in {"good", "bad", "raise"} : f' = Evaluated(f, r) /\ last' = r /\ op' = "fit_" \o r
       /\ UNCHANGED <<s, before, n>>

Next == Begin \/ Scan \/ Fit
Spec == Init /\ [][Next]_vars /\ WF_vars(Scan)

MeasuredShifted == MeasuredAt(s, W)
FoundIsRestored == Restored(s, before)
OnlyTwoVoltages == s.pc \in {"measure", "shift"} => s.volts \in {before, Shifted(before, s.sg[s.i], W)}
NeverOfEarlierData == last # "raise" => f.own = f.n
BadIsUndefined == last = "bad" => ~f.def
Ends == (s.pc \notin {"idle", "over"}) ~> (s.pc = "over")

\* the formulas of the repetitions agree with the definition of mean and variance
SMALL == {NaN, -8, 0, 8, 16}
Samples == UNION {[1..m -> SMALL] : m \in 1..3}
ASSUME \A xs \in Samples :
    LET d == Defined(xs)
        c == Len(d)
        m == Mean(xs)
    IN IF d = <<>> THEN Mean(xs) = NaN /\ VarOfMean(xs) = NaN
       ELSE /\ Abs(c * m - Sum(d) * 8192) <= c
            \* c * sum (x - mean)^2 = c * sum x^2 - (sum x)^2, taken c-fold to stay with integers
            /\ Sum([i \in DOMAIN d |-> (c * d[i] - Sum(d)) * (c * d[i] - Sum(d))]) = c * (c * Squares(d) - Sum(d) * Sum(d))
            /\ VarOfMean(xs) >= 0
            /\ (c = 1 => VarOfMean(xs) = 0)
==============================================================================
