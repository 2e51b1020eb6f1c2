-------------------------------- MODULE Enc --------------------------------
(* Numbers in traces: a float x is the integer nearest to x * 65536         *)
(* (|x| < 8192); everything else is one of the markers below.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SC   == 65536
NaN  == 2000000001
PINF == 2000000002
NINF == 2000000003
BIG  == 2000000004      \* finite, but outside the range that is encoded
MISS == 2000000009      \* there is no such entry

IsNum(x) == x < 1900000000 /\ x > -1900000000
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Near(a, b, t) == IF IsNum(a) /\ IsNum(b) THEN Abs(a - b) <= t ELSE a = b
VecNear(u, v, t) == Len(u) = Len(v) /\ \A i \in DOMAIN u : Near(u[i], v[i], t)
HasNaN(v) == \E i \in DOMAIN v : v[i] = NaN
AllNum(v) == \A i \in DOMAIN v : IsNum(v[i])

\* a < b for encoded floats (comparison with NaN is false)
Lt(a, b) == CASE a = NaN \/ b = NaN -> FALSE
              [] a = NINF -> b # NINF
              [] b = NINF -> FALSE
              [] b = PINF -> a # PINF
              [] a = PINF -> FALSE
              [] OTHER -> a < b
Le(a, b) == a # NaN /\ b # NaN /\ (a = b \/ Lt(a, b))
\* |a - b|
Dist(a, b) == CASE a = NaN \/ b = NaN -> NaN
                [] ~IsNum(a) /\ ~IsNum(b) -> IF a = b THEN NaN ELSE PINF
                [] ~IsNum(a) \/ ~IsNum(b) -> PINF
                [] OTHER -> Abs(a - b)

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Dot(u, v) == Sum([i \in DOMAIN u |-> u[i] * v[i]])
VAdd(u, v) == [i \in DOMAIN u |-> u[i] + v[i]]
VSub(u, v) == [i \in DOMAIN u |-> u[i] - v[i]]

\* new values where they are given, old ones otherwise
Merge(old, new) == [i \in DOMAIN old |-> IF new[i] = MISS THEN old[i] ELSE new[i]]
Range(f) == {f[i] : i \in DOMAIN f}
Last(s) == s[Len(s)]

\* floor division of possibly negative numbers by a positive one, rounded to nearest
RDiv(a, b) == (a + b \div 2) \div b
=============================================================================
