---------------------------- MODULE EvaluatorTrace ----------------------------
(* Validates recorded evaluations.  Every event describes one evaluation:       *)
(*   exc        "none" | "injected" | "raised"                                  *)
(*   kind       what the data is: "good" | "bad" | "any" | "raise"              *)
(*   np         number of declared parameters                                   *)
(*   val, var   values and variances in the order of the declared parameters    *)
(*              (MISS: not returned), more: number of labels too many           *)
(*   want, tol  expected values (<<>>: not known)                               *)
(*   meas       numbers of the measurements in the order they were made         *)
(*   nm         number of configured measurements                               *)
(*   stored     the stored data is the data of this evaluation                  *)
(*   fit        stored results of the fit, <<>>: the evaluator has none;         *)
(*   fits       positions of the declared parameters in it                      *)
EXTENDS Evaluator, TraceBase

VARIABLES t, l, st
vars == <<t, l, st>>
Cfg == Traces[t].cfg
Ok(e) == e.exc = "none"
Undef(v) == \A i \in DOMAIN v : v[i] = NaN

Labelled(e) == Len(e.val) = e.np /\ MISS \notin Range(e.val) /\ MISS \notin Range(e.var) /\ e.more = 0

Result(e) == <<
    C("E02.no_error", e.kind # "raise", Ok(e)),
    C("E02.errors_pass", e.kind = "raise", e.exc = "injected"),
    C("E02.labels", Ok(e), Labelled(e)),
    C("E02.measures_once", Ok(e), e.meas = [i \in 1..e.nm |-> i]),
    C("E02.no_negative_variance", Ok(e), \A i \in DOMAIN e.var : ~Lt(e.var[i], 0)),
    C("E02.undefined", Ok(e) /\ e.kind = "bad", Undef(e.val)),
    C("E02.undefined_fit", Ok(e) /\ e.kind = "bad" /\ e.fit # <<>>, Undef(e.fit)),
    C("E02.own_data", Ok(e) /\ e.stored # 2, e.stored = 1),
    C("E02.own_fit", Ok(e) /\ e.fit # <<>>, \A i \in DOMAIN e.fits : e.fits[i] = 0 \/ Near(e.val[i], e.fit[e.fits[i]], 1)),
    C("E02.recovers", Ok(e) /\ e.kind = "good" /\ e.op = "fit" /\ e.want # <<>>, VecNear(e.val, e.want, e.tol)),
    C("E02.variances", Ok(e) /\ e.wantvar # <<>>, VecNear(e.var, e.wantvar, 2))
  >>

(* lead scans: calls [k, m, r, req, volts]                                       *)
(*   k "read" | "set" | "measure", m number of the measurement, r "ok" | "raise", *)
(*   req voltages asked for, volts voltages after the call                        *)
Sets(e) == {i \in DOMAIN e.calls : e.calls[i].k = "set"}
Meas(e) == {i \in DOMAIN e.calls : e.calls[i].k = "measure"}
Failed(e) == \E i \in DOMAIN e.calls : e.calls[i].r = "raise"
\* the experiment did not accept the voltages that should be restored
Lost(e) == \E i \in Sets(e) : e.calls[i].r = "raise" /\ e.calls[i].req = e.before
Allowed(e) == {e.before} \cup {Shifted(e.before, e.sg[i], e.w) : i \in DOMAIN e.sg}
ScanClauses(e) == <<
    C("E01.restored", ~Lost(e), VecNear(e.after, e.before, 0)),
    C("E01.shifted", TRUE, \A i \in Meas(e) : /\ e.calls[i].m \in DOMAIN e.sg
                              /\ VecNear(e.calls[i].volts, Shifted(e.before, e.sg[e.calls[i].m], e.w), 1)),
    C("E01.no_other_voltages", TRUE, \A i \in Sets(e) : \E v \in Allowed(e) : VecNear(e.calls[i].req, v, 1)),
    C("E01.order", TRUE, LET ms == SelectSeq(e.calls, LAMBDA c : c.k = "measure")
                         IN \A i \in DOMAIN ms : ms[i].m = i),
    C("E01.errors_pass", Failed(e), e.exc = "injected"),
    C("E01.ends_at_failure", Failed(e), LET first == CHOOSE i \in DOMAIN e.calls : e.calls[i].r = "raise" /\ \A j \in 1..(i - 1) : e.calls[j].r = "ok"
                                        IN \A i \in Meas(e) : i <= first)
  >>

\* positions in units of the distance of the points
FindClauses(e) == <<
    C("E04.positions", Ok(e) /\ e.kind = "good", VecNear(e.pos, e.wantpos, e.tolpos)),
    C("E04.signals", Ok(e) /\ e.kind = "good" /\ e.sig # <<>>, VecNear(e.sig, e.wantsig, e.tolsig))
  >>

\* repetitions: xs[p] the values of parameter p in units of 1/8
RepeatClauses(e) == <<
    C("E03.no_error", e.kind # "raise", Ok(e)),
    C("E03.errors_pass", e.kind = "raise", e.exc = "injected"),
    C("E03.rounds", Ok(e), e.rounds = e.n /\ \A p \in DOMAIN e.xs : Len(e.xs[p]) = e.n),
    C("E03.labels", Ok(e), Labelled(e)),
    C("E03.mean", Ok(e), \A p \in DOMAIN e.xs : Near(e.val[p], Mean(e.xs[p]), 2)),
    C("E03.variance", Ok(e), \A p \in DOMAIN e.xs : Near(e.var[p], VarOfMean(e.xs[p]), 2)),
    C("E03.data", Ok(e), e.data = e.wantdata)
  >>

\* values that are passed on if they are within limits
Within(x, lo, hi) == IF Lt(x, lo) \/ Lt(hi, x) THEN NaN ELSE x
ReadClauses(e) == <<
    C("E02.limits", Ok(e), \A i \in DOMAIN e.xs : Near(e.val[i], Within(e.xs[i], e.lo[i], e.hi[i]), 1))
  >>

Clauses(s, e) ==
    CASE e.op = "scan" -> Result(e) \o ScanClauses(e) \o FindClauses(e)
      [] e.op = "fit" -> Result(e)
      [] e.op = "find" -> Result(e) \o FindClauses(e)
      [] e.op = "repeat" -> RepeatClauses(e)
      [] e.op = "read" -> Result(e) \o ReadClauses(e)
      [] e.op = "reload" -> << C("H02.evaluator", TRUE, Ok(e) /\ e.a = e.b) >>
      [] OTHER -> <<>>

Init == /\ InitCounters
        /\ t \in DOMAIN Traces
        /\ l = 1
        /\ st = 0
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Traces[t].events[l]
           IN Report(t, l, AsBefore("H02.evaluator_continues", t, l, Clauses(st, e)))
        /\ l' = l + 1 /\ t' = t /\ st' = st
Spec == Init /\ [][Next]_vars
==============================================================================
