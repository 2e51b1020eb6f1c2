------------------------------ MODULE Gradient ------------------------------
(* Gradient estimators.  All numbers are encoded with SC, products are       *)
(* computed with scale R (1/4096), so that everything stays in 32 bit.       *)
(*                                                                           *)
(* State s of an estimator:                                                  *)
(*   mode    "fd" (finite differences), "kalman"                             *)
(*   pos     present position                                                *)
(*   pts     fd: sequence of [p, v, var], accepted measurements              *)
(*   known   a gradient is known; grad, cov: the gradient                    *)
(*   hasVal, val   kalman: value at pos                                      *)
EXTENDS Enc

R == 4096
ToR(x) == RDiv(x, SC \div R)
RVec(v) == [i \in DOMAIN v |-> ToR(v[i])]
RMat(m) == [i \in DOMAIN m |-> RVec(m[i])]
\* products of numbers of scale R; the first factor is split, so that |b| < 128 and small results are safe
Hi(a) == a \div R
Lo(a) == a - R * Hi(a)
Mul(a, b) == Hi(a) * b + RDiv(Lo(a) * b, R)
MDot(u, v) == Sum([i \in DOMAIN u |-> Hi(u[i]) * v[i]]) + RDiv(Sum([i \in DOMAIN u |-> Lo(u[i]) * v[i]]), R)
MatVec(m, v) == [i \in DOMAIN m |-> MDot(m[i], v)]
InRange(v, b) == AllNum(v) /\ \A i \in DOMAIN v : Abs(v[i]) <= b
MatInRange(m, b) == \A i \in DOMAIN m : InRange(m[i], b)

Dim(s) == Len(s.pos)
Needed(s, sym) == IF sym THEN 2 * Dim(s) ELSE Dim(s) + 1

(* --- finite differences --- *)
\* the requested point is at the configured distance (in units of eps, which may differ between gates)
AtDistance(pos, eps, req) ==
    LET u == [i \in DOMAIN pos |-> IF eps[i] = 0 THEN 0 ELSE RDiv((req[i] - pos[i]) * 64, eps[i])]
    IN Abs(Dot(u, u) - 64 * 64) <= 260
Mirrored(pos, last, req) == \A i \in DOMAIN pos : Near(req[i] + last[i], 2 * pos[i], 4)

\* the gradient reproduces every difference that was measured
Pairs(n, sym) == IF sym THEN {<<2 * k - 1, 2 * k>> : k \in 1..(n \div 2)}
                 ELSE {<<i, j>> \in (1..n) \X (1..n) : i < j}
ToP(x) == RDiv(x, 64)                       \* scale 1024
PVec(v) == [i \in DOMAIN v |-> ToP(v[i])]
L1(v) == Sum([i \in DOMAIN v |-> Abs(v[i])])
\* the points are not too far apart and the gradient is not too large to compute with
Computable(pts, grad) ==
    /\ InRange(grad, 64 * SC)
    /\ \A k \in DOMAIN pts : InRange(pts[k].p, 2 * SC + SC \div 2) /\ IsNum(pts[k].v) /\ Abs(pts[k].v) <= 256 * SC
Reproduces(pts, grad, sym) ==
    \A ij \in Pairs(Len(pts), sym) :
        LET d == PVec(VSub(pts[ij[2]].p, pts[ij[1]].p))
            g == PVec(grad)
        IN Abs(RDiv(Dot(g, d), 1024) - ToP(pts[ij[2]].v - pts[ij[1]].v)) <= 8 + (L1(d) + L1(g)) \div 1024

ToS(x) == RDiv(x, 256)                      \* scale 256
SVec(v) == [i \in DOMAIN v |-> ToS(v[i])]
SMat(m) == [i \in DOMAIN m |-> SVec(m[i])]
QuadS(m, u, v) == RDiv(Dot(u, [i \in DOMAIN m |-> RDiv(Dot(m[i], v), 256)]), 256)
\* variances of the measured differences
Propagates(pts, cov, sym) ==
    LET m == SMat(cov)
        n == Len(pts)
        d(i, j) == SVec(VSub(pts[i].p, pts[j].p))
        var(i) == ToS(pts[i].var)
        mm == CHOOSE x \in {Abs(m[i][j]) : i, j \in DOMAIN m} : \A i, j \in DOMAIN m : Abs(m[i][j]) <= x
        tol(u, v) == 12 + (L1(u) + L1(v)) \div 64 + RDiv(L1(u) * L1(v), 65536)
    IN IF sym
       THEN \A k, q \in 1..(n \div 2) :
              LET u == d(2*k, 2*k - 1)
                  v == d(2*q, 2*q - 1)
              IN Abs(QuadS(m, u, v) - (IF k = q THEN var(2*k) + var(2*k - 1) ELSE 0)) <= tol(u, v)
       ELSE \E b \in 1..n : \A i, j \in (1..n) \ {b} :
              LET u == d(i, b)
                  v == d(j, b)
                  x == QuadS(m, u, v)
              IN IF i = j THEN Abs(x - (var(i) + var(b))) <= tol(u, v)
                 ELSE x >= -tol(u, v) /\ x <= var(b) + tol(u, v)
CovComputable(pts, cov) ==
    /\ MatInRange(cov, 80 * SC)
    /\ \A k \in DOMAIN pts : InRange(pts[k].p, 2 * SC + SC \div 2)
Quad(m, u, v) == MDot(u, MatVec(m, v))

(* --- Kalman filter: state before, measured difference h, y, variance r, fading (alpha^2), process noise --- *)
Predicted(cov, a2, noise) ==
    [i \in DOMAIN cov |-> [j \in DOMAIN cov |-> Mul(a2, ToR(cov[i][j])) + ToR(noise[i][j])]]
\* grad * S = grad_before * S + P h * (y - h grad_before),  cov * S = P * S - P h h' P
\* bounds of the rounding errors (units of scale R)
ErrPh(h) == 1 + L1(h) \div 4096
ErrS(h, ph) == 2 + (L1(h) * ErrPh(h) + L1(ph)) \div 4096
BayesGrad(grad0, P, h, y, r, grad1) ==
    LET ph == MatVec(P, h)
        S  == MDot(h, ph) + r
        in == y - MDot(h, RVec(grad0))
        ein == 2 + (L1(h) + L1(RVec(grad0))) \div 4096
    IN \A i \in DOMAIN h :
          LET g0 == ToR(grad0[i])
              g1 == ToR(grad1[i])
          IN Abs(Mul(g1, S) - (Mul(g0, S) + Mul(ph[i], in)))
                <= 6 + ((Abs(in) * ErrPh(h)) + Abs(ph[i]) * ein + (Abs(g0) + Abs(g1)) * ErrS(h, ph) + 2 * S) \div 4096
BayesCov(P, h, r, cov1) ==
    LET ph == MatVec(P, h)
        S  == MDot(h, ph) + r
    IN \A i, j \in DOMAIN h :
          LET c1 == ToR(cov1[i][j]) IN
          Abs(Mul(c1, S) - (Mul(P[i][j], S) - Mul(ph[i], ph[j])))
                <= 6 + ((Abs(ph[i]) + Abs(ph[j])) * ErrPh(h) + (Abs(P[i][j]) + Abs(c1)) * ErrS(h, ph) + 2 * S) \div 4096
Symmetric(cov) == \A i, j \in DOMAIN cov : Near(cov[i][j], cov[j][i], 2)
NotEnlarged(cov0, cov1) == \A i \in DOMAIN cov0 : cov1[i][i] <= cov0[i][i] + 2
(* --- the filter with several values (at most two): all matrices with scale R --- *)
(* state: the gradients of all values one after another; H = block diagonal of h                                    *)
MT(a) == [j \in DOMAIN a[1] |-> [i \in DOMAIN a |-> a[i][j]]]
MM(a, b) == LET bt == MT(b) IN [i \in DOMAIN a |-> [j \in DOMAIN bt |-> MDot(a[i], bt[j])]]
MAdd(a, b) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> a[i][j] + b[i][j]]]
MSub(a, b) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> a[i][j] - b[i][j]]]
VAdd2(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
BlockH(h, m) == [k \in 1..m |-> [i \in 1..(m * Len(h)) |-> IF (i - 1) \div Len(h) + 1 = k THEN h[((i - 1) % Len(h)) + 1] ELSE 0]]
Inv(s) == IF Len(s) = 1 THEN <<<<RDiv(R * R, s[1][1])>>>>
          ELSE LET det == Mul(s[1][1], s[2][2]) - Mul(s[1][2], s[2][1])
                   q(x) == RDiv(x * R, det)
               IN <<<<q(s[2][2]), q(-s[1][2])>>, <<q(-s[2][1]), q(s[1][1])>>>>
\* the state after a prediction
FPredict(x, P, F, a2, Q) == [x |-> MatVec(F, x),
                             P |-> MAdd([i \in DOMAIN P |-> [j \in DOMAIN P |-> Mul(a2, MM(MM(F, P), MT(F))[i][j])]], Q)]
FUpdate(x, P, h, y, Rm) ==
    LET H == BlockH(h, Len(y))
        PH == MM(P, MT(H))
        K == MM(PH, Inv(MAdd(MM(H, PH), Rm)))
    IN [x |-> VAdd2(x, MatVec(K, VSub(y, MatVec(H, x)))), P |-> MSub(P, MM(K, MT(PH)))]
\* u: a direction in which the value is most uncertain
Uncertain(P, u) == /\ Abs(Dot(u, u) - R * R) <= (R * R) \div 64
                   /\ LET pu == MatVec(P, u)
                          l == MDot(u, pu)
                      IN /\ \A i \in DOMAIN u : Abs(pu[i] - Mul(l, u[i])) <= 24
                         /\ \A i \in DOMAIN u : P[i][i] <= l + 24
                         /\ \A i, j \in DOMAIN u : \A sg \in {-1, 1} : i < j =>
                               (P[i][i] + P[j][j] + sg * 2 * P[i][j]) \div 2 <= l + 24
Moved(h) == \E i \in DOMAIN h : h[i] # 0
=============================================================================
