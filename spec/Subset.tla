------------------------------- MODULE Subset -------------------------------
(* A group of parameters: judgement, slicing of the steps, recovery.         *)
(*                                                                           *)
(* State s of a group:                                                       *)
(*   last     voltages of the last judgement (or restart)                    *)
(*   failed   the last measurement failed                                    *)
(*   good     sequence of voltages known to be good (see GoodAfter)          *)
(*   tuned    sequence of voltages that passed                               *)
(*   steps    suggestions made since the last measurement                    *)
(*   reached  the last suggestion reached the position the solver asked for  *)
(*   range    distance to the position the solver asked for after the last   *)
(*            measurement (scale Q), -1 if there was none                    *)
EXTENDS Enc

\* distances are computed with scale Q, so that squares stay in range
Q == 4096
ToQ(x) == RDiv(x, SC \div Q)
QVec(u, v) == [i \in DOMAIN u |-> ToQ(v[i] - u[i])]

RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET mid == (lo + hi) \div 2 IN
                           IF mid * mid <= n THEN ISqrtIn(n, mid, hi) ELSE ISqrtIn(n, lo, mid)
ISqrt(n) == ISqrtIn(n, 0, 46341)

Small(d) == \A i \in DOMAIN d : Abs(d[i]) < 20000
Norm(d) == ISqrt(Dot(d, d))

\* result of a step from `last` towards `to`, at most `max` (SC) long; NaN: no limit
FullStep(last, to, max) == max = NaN \/ Norm(QVec(last, to)) <= ToQ(max)
StepOK(last, to, max, res) ==
    LET d == QVec(last, to)
        n == Norm(d)
        r == QVec(last, res)
        m == ToQ(max)
    IN IF max = NaN \/ n + 2 < m THEN VecNear(res, to, 2)
       ELSE IF n <= m + 2 THEN VecNear(res, to, 4 * (SC \div Q))
       ELSE \A i \in DOMAIN d : Abs(r[i] * n - d[i] * m) <= 3 * (n + Abs(d[i]) + Abs(r[i]) + m)
\* half way
MidOK(last, good, res) == \A i \in DOMAIN last : Near(2 * res[i], last[i] + good[i], 3)

\* the parameters have to be measured in the next judgement
MustMeasure(s, num) == s.steps = 0 \/ s.steps >= num \/ s.reached \/ s.failed

\* targets: rows [desired, minimum, maximum, tolerance, cost threshold, factor]
UsedCols(T) == {c \in 1..6 : \E r \in DOMAIN T : T[r][c] # NaN}
Relevant(T, r) == \A c \in UsedCols(T) : T[r][c] # NaN
RelevantRows(T) == {r \in DOMAIN T : Relevant(T, r)}
\* within tolerance: vals are the rescaled values
RowOK(row, x) == row[1] = NaN \/ row[4] = NaN \/ Lt(Dist(row[1], x), row[4])
Passes(T, vals) == \A r \in DOMAIN T : RowOK(T[r], vals[r])
Undefined(T, vals) == \E r \in RelevantRows(T) : vals[r] = NaN

\* x is raw divided by the factor num/den (pow times)
Scaled(x, raw, f, pow) ==
    IF ~IsNum(raw) \/ ~IsNum(x) THEN x = raw
    ELSE LET a == IF pow = 1 THEN f[1] ELSE f[1] * f[1]
             b == IF pow = 1 THEN f[2] ELSE f[2] * f[2]
         IN Abs(x * a - raw * b) <= a + b

\* --- the design, one judgement and one suggestion at a time (queue q is not observable) ---
Judged(s, measured, undefined, pass, v) ==
    IF ~measured THEN [s EXCEPT !.last = v]
    ELSE [s EXCEPT !.last = v, !.steps = 0, !.reached = FALSE, !.range = -1, !.failed = undefined,
                   !.good  = IF undefined THEN @ ELSE Append(@, v),
                   !.tuned = IF pass /\ ~undefined THEN Append(@, v) ELSE @]
Suggested(s, to, max) ==
    IF s.failed THEN [s EXCEPT !.steps = @ + 1, !.reached = TRUE]
    ELSE [s EXCEPT !.steps = @ + 1, !.reached = FullStep(s.last, to, max),
                   !.range = IF s.steps = 0 THEN Norm(QVec(s.last, to)) ELSE @]
Restarted(s, v) == [s EXCEPT !.last = Merge(@, v), !.steps = 0, !.reached = FALSE, !.range = -1]
=============================================================================
