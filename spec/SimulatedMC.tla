---------------------------- MODULE SimulatedMC -----------------------------
(* Two experiments built from the same voltages, used in turn.               *)
EXTENDS Simulated

CONSTANTS MAXV, STEPS
EXPS == 1..2
GATES == 1..2
MEAS == 1..3          \* two experiments share measurements 1 and 2
VALUES == 0..MAXV

VARIABLES s, given, asked, hist, n, op
vars == <<s, given, asked, hist, n, op>>

\* experiment 1 answers measurement 1 by simulator 1 and 2 by simulator 2, experiment 2 the other way round;
\* simulator 3 answers two measurements
Sims == << <<1, 2, 3>>, <<2, 1, 3>> >>

Init == /\ given = <<0, 1>>
        /\ s = [v |-> [x \in EXPS |-> given], sim |-> Sims]
        /\ asked = [sim |-> 0, m |-> 0, v |-> <<>>]
        /\ hist = [x \in EXPS |-> given]
        /\ n = 0
        /\ op = "init"

Reqs == {r \in [GATES -> VALUES \cup {MISS}] : TRUE}
DoSet(x) == \E r \in Reqs :
    /\ s' = Set(s, x, r)
    /\ hist' = [hist EXCEPT ![x] = [g \in GATES |-> IF r[g] = MISS THEN @[g] ELSE r[g]]]
    /\ op' = "set_" \o ToString(x) \o "_" \o ToString(r[1]) \o "_" \o ToString(r[2])
    /\ UNCHANGED <<given, asked>>
DoMeasure(x) == \E m \in MEAS :
    /\ asked' = Asked(s, x, m)
    /\ op' = "measure_" \o ToString(x) \o "_" \o ToString(m)
    /\ UNCHANGED <<s, given, hist>>
Next == n < STEPS /\ n' = n + 1 /\ \E x \in EXPS : DoSet(x) \/ DoMeasure(x)
Spec == Init /\ [][Next]_vars

\* every experiment is at the voltages last asked for, whatever happens to the other one
Independent == \A x \in EXPS : s.v[x] = hist[x]
GivenKept == given = <<0, 1>>
RightSimulator == asked.m # 0 => \E x \in EXPS : asked.sim = Sims[x][asked.m]
MeasuringKeeps == [][asked' # asked => s' = s]_vars
=============================================================================
