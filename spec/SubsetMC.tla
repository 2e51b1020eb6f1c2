------------------------------ MODULE SubsetMC ------------------------------
(* Exhaustive model of one group with a queue of partial steps (one gate).   *)
(* The queue is the design decision of the code; the model checks that it    *)
(* satisfies the obligations of Subset, which are what is demanded of the    *)
(* recorded runs.                                                            *)
EXTENDS Subset

CONSTANTS POS,     \* positions the solver suggests (SC)
          MAXSIZE, \* maximal step size (SC)
          MAXNUM   \* maximal number of steps between two measurements

VARIABLES s, q, phase, op
vars == <<s, q, phase, op>>

Grid(x) == RDiv(x, SC \div 2) * (SC \div 2)     \* the experiment sets multiples of 1/2
LastGood == IF s.good = <<>> THEN <<>> ELSE s.good[Len(s.good)]
Cut(seq) == IF Len(seq) > 1 THEN SubSeq(seq, Len(seq), Len(seq)) ELSE seq

Init == /\ \E x \in POS : s = [last |-> <<x>>, failed |-> FALSE, good |-> <<>>, tuned |-> <<>>, steps |-> 0,
                               reached |-> FALSE, range |-> -1, at |-> <<x>>]
        /\ q = 0 /\ phase = "judge" /\ op = "init"

Keep(x) == [x EXCEPT !.good = Cut(@), !.tuned = Cut(@)]
\* at: voltages of the experiment
Skip == /\ phase = "judge" /\ q > 0
        /\ s' = Judged(s, FALSE, FALSE, FALSE, s.at) /\ phase' = "next" /\ op' = "skip" /\ q' = q
Measure(undef, pass, name) ==
        /\ phase = "judge" /\ q = 0
        /\ s' = Keep(Judged(s, TRUE, undef, pass, s.at))
        /\ phase' = IF pass /\ ~undef THEN "judge" ELSE "next"
        /\ op' = name /\ q' = q
Pass == Measure(FALSE, TRUE, "pass")
Fail == Measure(FALSE, FALSE, "fail")
Undef == s.good # <<>> /\ Measure(TRUE, FALSE, "undefined")

Dest(to) == IF Abs(to - s.last[1]) <= MAXSIZE THEN to
            ELSE IF to > s.last[1] THEN s.last[1] + MAXSIZE ELSE s.last[1] - MAXSIZE
Next1(to) == /\ phase = "next" /\ ~s.failed
             /\ LET d == Abs(to - s.last[1]) IN
                  q' = IF d <= MAXSIZE THEN 0
                       ELSE (IF q = 0 THEN Min2(d \div MAXSIZE, MAXNUM) ELSE q) - 1
             /\ s' = [Suggested(s, <<to>>, MAXSIZE) EXCEPT !.at = <<Grid(Dest(to))>>]
             /\ phase' = "judge" /\ op' = "next_" \o ToString(to)
SuggestS == \E to \in POS : Next1(to)
Recover == /\ phase = "next" /\ s.failed
           /\ s' = [Suggested(s, s.last, MAXSIZE) EXCEPT !.at = <<Grid((s.last[1] + LastGood[1]) \div 2)>>]
           /\ phase' = "judge" /\ op' = "recover" /\ q' = q
DoRestart == /\ \E x \in POS : /\ s' = [Restarted(s, <<x>>) EXCEPT !.at = <<x>>]
                               /\ op' = "restart_" \o ToString(x)
             /\ q' = 0 /\ phase' = "judge"

Next == Skip \/ Pass \/ Fail \/ Undef \/ SuggestS \/ Recover \/ DoRestart
Spec == Init /\ [][Next]_vars

\* the queue satisfies what is demanded of every implementation
MeasuresWhenItMust == (phase = "judge" /\ MustMeasure(s, MAXNUM)) => q = 0
AtMostNum == s.steps <= MAXNUM
NoOvershoot == (s.range >= 0 /\ s.steps > 1) => (s.steps * ToQ(MAXSIZE) <= s.range + 2)
StepIsOK == [][(phase = "next" /\ ~s.failed /\ \E to \in POS : op' = "next_" \o ToString(to)) =>
                 \E to \in POS : op' = "next_" \o ToString(to) /\ StepOK(s.last, <<to>>, MAXSIZE, <<Dest(to)>>)]_vars
FailedNothingRecorded == [][op' \in {"undefined", "skip"} => s'.good = s.good /\ s'.tuned = s.tuned]_vars
RecoverCloser == [][op' = "recover" =>
                      Abs(s'.at[1] - LastGood[1]) <= Abs(s.last[1] - LastGood[1]) \div 2 + SC \div 2]_vars
Inv == MeasuresWhenItMust /\ AtMostNum /\ NoOvershoot /\ q \in 0..MAXNUM /\ (s.failed => s.good # <<>>)

LiveSpec == Spec /\ WF_vars(Skip) /\ WF_vars(Pass \/ Fail \/ Undef) /\ WF_vars(SuggestS \/ Recover)
\* without restarts the tuning always comes back to a measurement
Comes == []<>(q = 0 /\ phase = "judge")
=============================================================================
