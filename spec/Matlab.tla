------------------------------- MODULE Matlab -------------------------------
(* Indices of python and MATLAB, the layout of arrays, gate voltages behind   *)
(* MATLAB, and the connections to MATLAB sessions.                            *)
EXTENDS Integers, Sequences, FiniteSets

None == 1000      \* a bound that is not given
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

\* first, first + step, ... as long as it does not pass last
RECURSIVE Range_(_, _, _)
Range_(first, step, last) ==
    IF (step > 0 /\ first > last) \/ (step < 0 /\ first < last) THEN <<>>
    ELSE <<first>> \o Range_(first + step, step, last)

\* python: the positions (from 0) selected from n elements
PyIndex(n, i) == <<IF i < 0 THEN i + n ELSE i>>
IndexExists(n, i) == -n <= i /\ i < n
PyStart(n, a, step) == IF a = None THEN (IF step > 0 THEN 0 ELSE n - 1)
                       ELSE LET x == IF a < 0 THEN a + n ELSE a
                            IN IF step > 0 THEN Min(Max(x, 0), n) ELSE Min(Max(x, -1), n - 1)
PyStop(n, b, step) == IF b = None THEN (IF step > 0 THEN n ELSE -1)
                      ELSE LET x == IF b < 0 THEN b + n ELSE b
                           IN IF step > 0 THEN Min(Max(x, 0), n) ELSE Min(Max(x, -1), n - 1)
StepOf(c) == IF c = None THEN 1 ELSE c
PySlice(n, a, b, c) ==
    LET s == StepOf(c) IN Range_(PyStart(n, a, s), s, PyStop(n, b, s) - (IF s > 0 THEN 1 ELSE -1))
\* no bound has to be moved
Within(n, a, b, c) == /\ (a # None => -n <= a /\ a < n)
                      /\ (b # None => -n <= b /\ b <= n)
                      /\ (StepOf(c) < 0 /\ b # None => b < n)

\* MATLAB: a bound is end * e + k; positions from 1
Bound(x, n) == x.e * n + x.k
MatRange(n, r) == Range_(Bound(r.first, n), r.step, Bound(r.last, n))
MatExists(n, xs) == \A i \in DOMAIN xs : 1 <= xs[i] /\ xs[i] <= n
Same(xs, ps) == Len(xs) = Len(ps) /\ \A i \in DOMAIN xs : xs[i] = ps[i] + 1

\* a correct translation
Whole(x) == IF x < 0 THEN [e |-> 1, k |-> x + 1] ELSE [e |-> 0, k |-> x + 1]
Translate(a, b, c) ==
    LET s == StepOf(c)
        one == [e |-> 0, k |-> 1]
        end == [e |-> 1, k |-> 0]
    IN [first |-> IF a = None THEN (IF s > 0 THEN one ELSE end) ELSE Whole(a),
        step |-> s,
        last |-> IF b = None THEN (IF s > 0 THEN end ELSE one)
                 ELSE [Whole(b) EXCEPT !.k = @ - (IF s > 0 THEN 1 ELSE -1)]]

\* arrays: the bytes of python (row by row) are given the reversed shape column by column, and transposed
RowMajor(m) == [i \in 1..(Len(m) * Len(m[1])) |-> m[((i - 1) \div Len(m[1])) + 1][((i - 1) % Len(m[1])) + 1]]
Reshape(xs, r, c) == [i \in 1..r |-> [j \in 1..c |-> xs[(j - 1) * r + i]]]
Transpose(m) == [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]]

\* connections: a session that is in use is used again, since it can not be connected twice
Reused(connected, request) == \/ request = "any" /\ connected # {}
                              \/ request \in connected
\* the MATLAB files of qtune: found in "own", found "other"wise, or not found ("none")
PathAfter(path, overwrite) == IF path = "other" /\ overwrite = "no" THEN "other" ELSE "own"
Warns(path, overwrite) == path = "other" /\ overwrite = "ask"
\* the script that defines smdata is run where smdata is missing
RunsScript(smdata, script) == ~smdata /\ script # "none"
SmdataAfter(smdata, script) == smdata \/ script = "good"
Refused(smdata, script) == ~smdata /\ script = "bad"
==============================================================================
