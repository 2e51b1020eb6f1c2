------------------------------ MODULE Evaluator ------------------------------
(* Evaluators: what is measured at which voltages, what is left behind and   *)
(* what is returned.                                                         *)
(*                                                                           *)
(* 1. A lead scan s = [pc, i, k, sg, found, volts, lost, raised]             *)
(*    k scans; scan i is made with gate sg[i] shifted; lost: the experiment   *)
(*    did not accept the voltages that should be restored                    *)
(* 2. Evaluators that fit their data f = [has, def, own]: whether data was    *)
(*    seen, whether the last result is defined, and whose data it is from     *)
(* 3. Repetitions: sums over the defined values                              *)
EXTENDS Enc

(* -------------------------------- lead scan -------------------------------- *)
Scan0(volts, sg) == [pc |-> "read", i |-> 1, k |-> Len(sg), sg |-> sg, found |-> volts, volts |-> volts,
                     lost |-> FALSE, raised |-> FALSE]
Shifted(found, g, w) == [found EXCEPT ![g] = @ - w]
\* what the experiment accepted of the voltages asked for: all, nothing, or a part of them
Read(s) == [s EXCEPT !.found = s.volts, !.pc = "shift"]
ReadRaises(s) == [s EXCEPT !.raised = TRUE, !.pc = "over"]
ShiftOk(s, w) == [s EXCEPT !.volts = Shifted(s.found, s.sg[s.i], w), !.pc = "measure"]
ShiftRaises(s, v) == [s EXCEPT !.volts = v, !.raised = TRUE, !.pc = "restore"]
MeasureOk(s) == [s EXCEPT !.pc = "restore"]
MeasureRaises(s) == [s EXCEPT !.raised = TRUE, !.pc = "restore"]
RestoreOk(s) == [s EXCEPT !.volts = s.found, !.i = s.i + 1,
                          !.pc = IF s.raised \/ s.i = s.k THEN "over" ELSE "shift"]
RestoreRaises(s, v) == [s EXCEPT !.volts = v, !.lost = TRUE, !.raised = TRUE, !.pc = "over"]

MeasuredAt(s, w) == s.pc = "measure" => s.volts = Shifted(s.found, s.sg[s.i], w)
Restored(s, before) == s.pc = "over" /\ ~s.lost => s.volts = before

(* ---------------------------------- fits ---------------------------------- *)
Fit0 == [n |-> 0, def |-> FALSE, own |-> 0]
\* an evaluation of the n-th data; r: "good" | "bad" | "raise"
Evaluated(f, r) == CASE r = "raise" -> f
                     [] OTHER -> [n |-> f.n + 1, def |-> r = "good", own |-> f.n + 1]

(* ------------------------------- repetitions ------------------------------- *)
\* xs: values in units of 1/8, NaN: undefined
Defined(xs) == SelectSeq(xs, LAMBDA x : x # NaN)
Squares(xs) == Sum([i \in DOMAIN xs |-> xs[i] * xs[i]])
Mean(xs) == LET d == Defined(xs) IN IF d = <<>> THEN NaN ELSE RDiv(Sum(d) * (SC \div 8), Len(d))
\* variance of the mean: variance of the sample / number of defined values
VarOfMean(xs) == LET d == Defined(xs)
                     c == Len(d)
                 IN IF d = <<>> THEN NaN ELSE RDiv((c * Squares(d) - Sum(d) * Sum(d)) * (SC \div 64), c * c * c)
==============================================================================
