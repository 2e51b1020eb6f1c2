-------------------------------- MODULE Solver --------------------------------
(* Solvers.  Positions are sequences of encoded numbers (scale SC), values of *)
(* parameters are multiples of 1/4, so that costs are exact integers.         *)
EXTENDS Enc

(* ------------------------------ Nelder-Mead ------------------------------ *)
(* State s: phase, simplex (sequence of [p, v], ordered by cost unless the    *)
(* simplex is still built), refl (<<>> or <<point>>), shrunk (sequence).      *)
Quarter(x) == RDiv(x, SC \div 4)
\* cost of values: parameters without desired value do not count
Cost(des, v) == Sum([i \in DOMAIN des |-> IF des[i] = NaN THEN 0
                                          ELSE (Quarter(v[i]) - Quarter(des[i])) * (Quarter(v[i]) - Quarter(des[i]))])
Exact(v) == \A i \in DOMAIN v : IsNum(v[i]) /\ v[i] % (SC \div 4) = 0 /\ Abs(v[i]) <= 64 * SC
Costs(des, sx) == [i \in DOMAIN sx |-> Cost(des, sx[i].v)]
SortedSeq(c) == \A i \in 1..(Len(c) - 1) : c[i] <= c[i + 1]

RECURSIVE Count(_, _)
Count(seq, x) == IF seq = <<>> THEN 0 ELSE (IF Head(seq) = x THEN 1 ELSE 0) + Count(Tail(seq), x)
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])

\* new is old with x put in and one of the most expensive points taken out
Inserted(des, old, x, new) ==
    LET all == Append(old, x)
        c == Costs(des, all)
    IN /\ SortedSeq(Costs(des, new))
       /\ \E k \in DOMAIN all : /\ \A j \in DOMAIN all : c[j] <= c[k]
                                /\ SameBag(Append(new, all[k]), all)
Kept(des, old, new) == new = old

Trial(ph) == CASE ph \in {"start_iteration", "reflect"} -> "reflect" [] OTHER -> ph
New(ph) == ph \in {"start_iteration", "reflect"}     \* the next suggestion is a reflection

\* the phase after a measurement with cost c in phase ph; cs: costs of the simplex, rc: cost of the reflected point
AfterReflect(cs, c) == IF c < cs[1] THEN {"expand"}
                       ELSE IF c < cs[Len(cs) - 1] THEN {"new"}
                       ELSE IF c < cs[Len(cs)] THEN {"contract_outside"} ELSE {"contract_inside"}
AfterOutside(rc, c) == IF c < rc THEN {"new"} ELSE IF c = rc THEN {"new", "shrink"} ELSE {"shrink"}
AfterInside(cs, c) == IF c < cs[Len(cs)] THEN {"new"} ELSE {"shrink"}

\* the trial points; all but the last point of the simplex define the centroid
NP(sx) == Len(sx) - 1
\* n times the coordinate g of the trial point
TrialCoord(ph, sx, sh, g) ==
    LET n == NP(sx)
        sum == Sum([i \in 1..n |-> sx[i].p[g]])
        w == sx[Len(sx)].p[g]
    IN CASE ph = "reflect" -> <<2 * sum - n * w, n>>
         [] ph = "expand" -> <<3 * sum - 2 * n * w, n>>
         [] ph = "contract_outside" -> <<3 * sum - n * w, 2 * n>>
         [] ph = "contract_inside" -> <<sum + n * w, 2 * n>>
         [] ph = "shrink" -> <<sx[1].p[g] + sx[Len(sh) + 2].p[g], 2>>
TrialOK(ph, sx, sh, req) ==
    \A g \in DOMAIN req : LET c == TrialCoord(ph, sx, sh, g) IN Abs(req[g] * c[2] - c[1]) <= 3 * c[2] + 6

\* the direction of a point of the first simplex is independent of those before: orthogonal to them (scaled with span)
S64(x) == RDiv(x, 64)
Independent(sx, span, req) ==
    LET u == [g \in DOMAIN req |-> RDiv((req[g] - sx[1].p[g]) * 256, span[g])]
    IN /\ Abs(Dot(u, u) - 65536) <= 1600
       /\ \A i \in 2..Len(sx) : Abs(Dot(u, [g \in DOMAIN req |-> S64(sx[i].p[g] - sx[1].p[g])])) <= 5200

(* --------------------------------- Newton --------------------------------- *)
\* J: rows in units of 1/2; step and diff in units of SC; zs: integer basis of the null space of J
Residual(J, step, diff) == [i \in DOMAIN J |-> Dot(J[i], step) - 2 * diff[i]]          \* scale 2 SC
Column(J, j) == [i \in DOMAIN J |-> J[i][j]]
L1(v) == Sum([i \in DOMAIN v |-> Abs(v[i])])
LeastSquares(J, step, diff) ==
    LET r == Residual(J, step, diff) IN
    \A j \in DOMAIN step : Abs(Dot(Column(J, j), r)) <= 4 + 4 * Sum([i \in DOMAIN J |-> Abs(J[i][j]) * (2 + L1(J[i]))])
Shortest(step, zs) == \A k \in DOMAIN zs : Abs(Dot(step, zs[k])) <= 8 + 4 * L1(zs[k])
Certificate(J, zs) == \A k \in DOMAIN zs : /\ \E j \in DOMAIN zs[k] : zs[k][j] # 0
                                           /\ \A i \in DOMAIN J : Dot(J[i], zs[k]) = 0
=============================================================================
