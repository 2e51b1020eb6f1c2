---------------------------- MODULE GradientTrace ----------------------------
(* Validates recorded calls of the gradient estimators.                      *)
(* cfg: kind "fd" | "kalman" | "self", sym, eps, max (maximal covariance),   *)
(* a2 (squared fading), noise (process noise)                                *)
EXTENDS Gradient, TraceBase

VARIABLES t, l, st
vars == <<t, l, st>>
Cfg == Traces[t].cfg
Sym == Cfg.sym = 1

\* observation o: pos, known, grad, cov, pts (finite differences), hasVal (irrelevant to fd)
S0(tr) == [mode |-> IF tr.cfg.kind = "kalman" THEN "kalman" ELSE "fd", pos |-> tr.init.pos,
           pts |-> tr.init.pts, known |-> tr.init.known = 1, grad |-> tr.init.grad, cov |-> tr.init.cov,
           hasVal |-> tr.init.hasVal = 1, val |-> tr.init.val, asked |-> <<>>, fdgrad |-> <<>>]

Same(s, o) == o.known = (IF s.known THEN 1 ELSE 0) /\ o.grad = s.grad /\ o.cov = s.cov
NearSame(s, o) == o.known = (IF s.known THEN 1 ELSE 0) /\ VecNear(o.grad, s.grad, 2)
                  /\ \A i \in DOMAIN s.cov : VecNear(o.cov[i], s.cov[i], 2)

(* ---- updates of finite differences ---- *)
FdUpdate(s, e) ==
    LET o == e.post
        n0 == Len(s.pts)
        n1 == Len(o.pts)
        need == Needed(s, Sym)
        full == s.pos # <<>> /\ AllNum(s.pos)
        new == [p |-> e.p, v |-> e.v, var |-> e.var]
    IN <<
      C("G01.no_error", TRUE, e.exc = "none"),
      C("G01.at_most_one", e.exc = "none", o.pts = s.pts \/ o.pts = Append(s.pts, new)),
      C("G01.first_point", e.exc = "none" /\ ~s.known /\ s.pos # <<>> /\ AllNum(e.p) /\ s.pts = <<>>
                           /\ \A i \in DOMAIN s.pos : ~AllNum(<<s.pos[i]>>),
            o.pos = e.p /\ o.pts = (IF Sym THEN <<>> ELSE <<new>>)),
      C("G01.asked_is_used", e.exc = "none" /\ s.asked # <<>> /\ ~s.known /\ VecNear(s.asked, e.p, 1), n1 = n0 + 1),
      C("G01.known_when_complete", e.exc = "none" /\ ~s.known, o.known = (IF n1 >= need THEN 1 ELSE 0)),
      C("G01.never_too_many", e.exc = "none", n1 <= need),
      C("G01.exact", e.exc = "none" /\ ~s.known /\ o.known = 1 /\ Computable(o.pts, o.grad), Reproduces(o.pts, o.grad, Sym)),
      C("G01.covariance", e.exc = "none" /\ ~s.known /\ o.known = 1 /\ CovComputable(o.pts, o.cov),
            Propagates(o.pts, o.cov, Sym) /\ Symmetric(o.cov)),
      C("G01.fixed", e.exc = "none" /\ s.known, Same(s, o) /\ o.pts = s.pts),
      C("G01.symmetric_pairs", e.exc = "none" /\ Sym /\ n1 = n0 + 1 /\ n1 % 2 = 0 /\ s.asked # <<>>
                               /\ VecNear(s.asked, e.p, 1),
            Mirrored(s.pos, o.pts[n0].p, o.pts[n1].p))
    >>

FdRequire(s, e) ==
    LET n0 == Len(s.pts) IN <<
      C("G01.require_no_error", AllNum(s.pos), e.exc = "none"),
      C("G01.asks_until_known", e.exc = "none", (e.asks = 1) = ~s.known),
      C("G01.distance", e.exc = "none" /\ e.asks = 1 /\ ~(Sym /\ n0 % 2 = 1), AtDistance(s.pos, Cfg.eps, e.req)),
      C("G01.mirrored", e.exc = "none" /\ e.asks = 1 /\ Sym /\ n0 % 2 = 1, Mirrored(s.pos, s.pts[n0].p, e.req)),
      C("G01.asking_changes_nothing", TRUE, Same(s, e.post) /\ e.post.pts = s.pts /\ e.post.pos = s.pos),
      C("G01.all_gates", e.exc = "none" /\ e.asks = 1, \A i \in DOMAIN e.req : e.req[i] # MISS)
    >>

(* ---- updates of the Kalman filter; pre: state before (grad, cov, pos, val) ---- *)
KalUpdate(pfx, s, e, fading, checkFixed) ==
    LET o == e.post
        h == RVec(VSub(e.p, s.pos))
        moved == Moved(VSub(e.p, s.pos))
        active == s.hasVal /\ moved
        P == Predicted(s.cov, ToR(fading), Cfg.noise)
        y == ToR(e.v - s.val)
        ok == e.exc = "none"
        inr == InRange(s.grad, 4 * SC) /\ MatInRange(s.cov, 4 * SC) /\ InRange(o.grad, 4 * SC)
               /\ MatInRange(o.cov, 4 * SC) /\ InRange(VSub(e.p, s.pos), 4 * SC) /\ Abs(e.v - s.val) <= 16 * SC
    IN <<
      C(pfx \o ".no_error", TRUE, ok),
      C(pfx \o ".nothing_to_learn", ok /\ ~active, Same(s, o)),
      C(pfx \o ".gradient", ok /\ active /\ inr, BayesGrad(s.grad, P, h, y, ToR(e.var), o.grad)),
      C(pfx \o ".covariance", ok /\ active /\ inr, BayesCov(P, h, ToR(e.var), o.cov)),
      C(pfx \o ".symmetric", ok /\ active /\ MatInRange(s.cov, 64 * SC) /\ Symmetric(s.cov), Symmetric(o.cov)),
      C(pfx \o ".not_enlarged", ok /\ active /\ fading = SC /\ \A i \in DOMAIN s.cov : Cfg.noise[i][i] = 0,
            NotEnlarged(s.cov, o.cov)),
      C(pfx \o ".base", ok, o.pos = IF e.isnew = 1 \/ ~s.hasVal THEN e.p ELSE s.pos)
    >>

(* ---- the filter itself ---- *)
FClauses(s, e) ==
    LET o == e.post
        a == IF e.predict = 1 THEN FPredict(RVec(s.grad), RMat(s.cov), RMat(Cfg.F), ToR(Cfg.a2), RMat(e.Q))
             ELSE [x |-> RVec(s.grad), P |-> RMat(s.cov)]
        b == FUpdate(a.x, a.P, RVec(e.h), RVec(e.y), RMat(e.R))
    IN <<
      C("G03.filter_no_error", TRUE, e.exc = "none" /\ e.kept = 1 /\ o.shape = <<Cfg.m, Cfg.n>>),
      C("G03.filter_gradient", e.exc = "none", VecNear(b.x, RVec(o.grad), 48)),
      C("G03.filter_covariance", e.exc = "none", \A i \in DOMAIN b.P : VecNear(b.P[i], RVec(o.cov[i]), 48))
    >>
\* one value: the direction of the largest uncertainty
FSuggest(s, e) == <<
      C("G03.filter_suggests", TRUE, e.exc = "none" /\ Len(e.v) = Cfg.n /\ Same(s, e.post)),
      C("G03.filter_direction", e.exc = "none" /\ Cfg.m = 1, Uncertain(RMat(s.cov), RVec(e.v)))
    >>

(* ---- requests of the Kalman estimator; eigen: certificate [lambda, vector] of the present covariance ---- *)
Eig(e) == e.eigen
CertOK(s, e) ==
    LET m == RMat(e.sub) IN
    /\ \A k \in DOMAIN Eig(e) : \A i \in DOMAIN m :
          Abs(MDot(m[i], RVec(Eig(e)[k].v)) - Mul(ToR(Eig(e)[k].l), ToR(Eig(e)[k].v[i]))) <= 6
    /\ \A k, q \in DOMAIN Eig(e) : Abs(MDot(RVec(Eig(e)[k].v), RVec(Eig(e)[q].v)) - (IF k = q THEN R ELSE 0)) <= 8
\* squared length (scale R) of the eigenvector scaled with its eigenvalue in units of the allowed covariance
Len2(s, e, k) ==
    LET u == [i \in DOMAIN Eig(e)[k].v |->
                LET g == e.gates[i] IN
                IF Cfg.max[g] = PINF THEN 0
                ELSE RDiv(Mul(ToR(Eig(e)[k].l), ToR(Eig(e)[k].v[i])) * 64, ToR(Cfg.max[g]))]
    IN Dot(u, u)
ONE == 64 * 64
Diag(m) == \A i, j \in DOMAIN m : i # j => m[i][j] = 0

KalRequire(s, e) ==
    LET lens == [k \in DOMAIN Eig(e) |-> Len2(s, e, k)]
        ok == e.exc = "none"
        free == e.jac = <<>>
        uniform == \A i, j \in DOMAIN e.gates : Cfg.max[e.gates[i]] = Cfg.max[e.gates[j]]
        \* the eigenvectors of a repeated eigenvalue are not unique: with gate-wise limits their lengths are not, either
        distinct == \A k, q \in DOMAIN Eig(e) : k # q => Abs(Eig(e)[k].l - Eig(e)[q].l) > 64
        inr == MatInRange(s.cov, 4 * SC) /\ (distinct \/ uniform)
        above == \E k \in DOMAIN lens : lens[k] > ONE + 200
        below == \A k \in DOMAIN lens : lens[k] < ONE - 200
        exact == Diag(e.sub) /\ \A k \in DOMAIN Eig(e) : \A i \in DOMAIN e.sub :
                    Eig(e)[k].v[i] # 0 => Eig(e)[k].l <= Cfg.max[e.gates[i]]
        d == [i \in DOMAIN s.pos |-> IF Cfg.eps[i] = 0 THEN 0 ELSE RDiv((e.req[i] - s.pos[i]) * 256, Cfg.eps[i])]
        dsub == [i \in DOMAIN e.gates |-> d[e.gates[i]]]
        proj(k) == Dot(dsub, [i \in DOMAIN e.gates |-> RDiv(Eig(e)[k].v[i], 256)])
        same(k) == {q \in DOMAIN Eig(e) : Abs(Eig(e)[k].l - Eig(e)[q].l) <= 64}
        along(k) == IF same(k) = {k} THEN Abs(proj(k)) >= 256 * 256 - 1300
                    ELSE Dot(dsub, dsub) - Sum([q \in DOMAIN Eig(e) |->
                             IF q \in same(k) THEN (RDiv(proj(q), 256)) * (RDiv(proj(q), 256)) ELSE 0]) <= 2600
    IN <<
      C("G02.no_error", TRUE, ok),
      C("harness.certificate", ok /\ free /\ inr, CertOK(s, e)),
      C("G02.asks_if_uncertain", ok /\ free /\ inr /\ above, e.asks = 1),
      C("G02.silent_if_certain", ok /\ free /\ inr /\ below, e.asks = 0),
      C("G02.silent_at_boundary", ok /\ free /\ inr /\ exact, e.asks = 0),
      C("G02.most_uncertain", ok /\ free /\ inr /\ e.asks = 1 /\ above,
            \E k \in DOMAIN lens : along(k) /\ \A q \in DOMAIN lens : lens[q] <= lens[k] + 200),
      C("G02.distance", ok /\ e.asks = 1, Abs(Dot(d, d) - 65536) <= 1300),
      C("G02.other_gates", ok /\ e.asks = 1,
            \A g \in DOMAIN s.pos : (\A i \in DOMAIN e.gates : e.gates[i] # g) => Near(e.req[g], s.pos[g], 2)),
      C("G02.keeps_tuned", ok /\ ~free /\ e.asks = 1,
            \A r \in DOMAIN e.jac : Abs(Dot(RVec(e.jac[r]), [i \in DOMAIN d |-> d[i]])) <= 16 * 256),
      C("G02.tuned_only_if_uncertain", ok /\ ~free /\ inr /\ e.asks = 1,
            LET m == RMat(s.cov)
                u == [i \in DOMAIN d |-> d[i] * 16]
                mx == CHOOSE x \in {Cfg.max[g] : g \in DOMAIN s.pos} : \A g \in DOMAIN s.pos : Cfg.max[g] <= x
            IN Quad(m, u, u) >= ToR(mx) - 24),
      \* nullcov: the covariance in an orthonormal basis of the directions that keep the tuned parameters
      C("G02.tuned_silent", ok /\ ~free /\ e.asks = 0 /\ e.nulldim = 1, e.nullcov <= Cfg.max[1] + 64),
      C("G02.asking_changes_nothing", TRUE, Same(s, e.post) /\ e.post.pos = s.pos)
    >>

(* ---- hand over ---- *)
HandOver(s, e) ==
    LET o == e.post IN <<
      C("G04.no_error", TRUE, e.exc = "none"),
      C("G04.when_complete", e.exc = "none", (o.mode = "kalman") = (Len(o.pts) >= Needed(s, Sym))),
      C("G04.starts_with", e.exc = "none" /\ o.mode = "kalman",
            /\ VecNear(o.grad, o.fdgrad, 2) /\ o.pos = e.p /\ (Computable(o.pts, o.grad) => Reproduces(o.pts, o.grad, Sym))
            /\ CovComputable(o.pts, o.cov) => Propagates(o.pts, o.cov, Sym))
    >>

RestartClauses(s, e) ==
    LET o == e.post IN <<
      C("A05.estimator_restart", TRUE, e.exc = "none" /\ o.pos = Merge(s.pos, e.p)),
      C("G03.restart_keeps", s.known, Same(s, o)),
      C("G01.restart_keeps", s.known /\ s.mode = "fd", o.pts = s.pts)
    >>
ReloadClauses(s, e) == <<
      C("H02.estimator", TRUE, e.exc = "none" /\ Same(s, e.post) /\ e.post.pos = s.pos /\ e.post.pts = s.pts),
      C("G04.mode_survives", TRUE, e.post.mode = s.mode)
    >>

\* the first measurement at a new place is not compared with the old place
FirstClauses(s, e) == <<
      C("A05.estimator_first", e.op = "update" /\ s.mode = "kalman" /\ ~s.hasVal,
            e.exc = "none" /\ Same(s, e.post) /\ e.post.pos = e.p)
    >>
Clauses(s, e) ==
    FirstClauses(s, e) \o
    CASE e.op = "update" /\ Cfg.kind = "fd" -> FdUpdate(s, e)
      [] e.op = "require" /\ s.mode = "fd" -> FdRequire(s, e)
      [] e.op = "update" /\ Cfg.kind = "kalman" -> KalUpdate("G03", s, e, Cfg.a2, FALSE)
      [] e.op = "require" -> KalRequire(s, e)
      [] e.op = "update" /\ s.mode = "fd" ->
            HandOver(s, e) \o (IF e.post.mode = "fd" THEN FdUpdate(s, e) ELSE <<>>)
      [] e.op = "update" -> KalUpdate("G04", s, e, SC, TRUE)
            \o <<C("G04.fd_fixed", TRUE, e.post.fdgrad = s.fdgrad /\ e.post.pts = s.pts /\ e.post.mode = "kalman")>>
      [] e.op = "fstart" -> <<C("G03.filter_starts", TRUE, e.post.grad = Cfg.grad /\ e.post.cov = Cfg.P
                                                             /\ e.post.shape = <<Cfg.m, Cfg.n>>)>>
      [] e.op = "fupdate" -> FClauses(s, e)
      [] e.op = "fsuggest" -> FSuggest(s, e)
      [] e.op = "freload" -> <<C("G03.filter_reloads", TRUE, e.exc = "none" /\ Same(s, e.post))>>
      [] e.op = "restart" -> RestartClauses(s, e)
      [] e.op = "reload" -> ReloadClauses(s, e)
      [] OTHER -> <<C("harness.none", TRUE, TRUE)>>

Resync(s, o) == [s EXCEPT !.pos = o.pos, !.pts = o.pts, !.known = (o.known = 1), !.grad = o.grad, !.cov = o.cov,
                          !.mode = o.mode, !.fdgrad = o.fdgrad]
After(s, e) ==
    LET o == e.post IN Resync(
      CASE e.op = "update" /\ o.mode = "kalman" ->
              IF s.mode = "fd" \/ ~s.hasVal \/ e.isnew = 1
              THEN [s EXCEPT !.hasVal = TRUE, !.val = e.v, !.asked = <<>>] ELSE s
        [] e.op = "update" -> [s EXCEPT !.asked = <<>>]
        [] e.op = "require" /\ e.exc = "none" /\ e.asks = 1 -> [s EXCEPT !.asked = e.req]
        [] e.op = "restart" -> [s EXCEPT !.hasVal = FALSE, !.asked = <<>>]
        [] OTHER -> s, o)

Init == /\ InitCounters
        /\ t \in DOMAIN Traces
        /\ l = 1
        /\ st = S0(Traces[t])
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Traces[t].events[l] IN
             /\ Report(t, l, AsBefore("H02.estimator_continues", t, l, Clauses(st, e)))
             /\ st' = After(st, e)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
