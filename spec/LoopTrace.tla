------------------------------ MODULE LoopTrace ------------------------------
(* Validates recorded runs of the real Autotuner against Loop.               *)
EXTENDS Loop, TraceBase

VARIABLES t, l, st
vars == <<t, l, st>>

Cfg == Traces[t].cfg

\* state of the specification after an observation
Observe(s, o, coh, passed) ==
    [s EXCEPT !.idx = o.idx, !.status = (o.status = 1), !.hasPend = (o.hasPend = 1), !.pend = o.pend,
              !.volts = o.volts, !.coh = coh, !.passed = passed,
              !.members = o.members, !.books = o.books, !.queue = o.queue]

S0(tr) == [n |-> tr.cfg.n, idx |-> tr.init.idx, status |-> tr.init.status = 1,
           hasPend |-> tr.init.hasPend = 1, pend |-> tr.init.pend, volts |-> tr.init.volts,
           coh |-> TRUE, passed |-> {}, members |-> tr.init.members, books |-> tr.init.books,
           queue |-> tr.init.queue, targets |-> tr.init.targets, targeted |-> tr.cfg.targeted]

SameLoop(s, o) == /\ o.idx = s.idx /\ (o.status = 1) = s.status /\ (o.hasPend = 1) = s.hasPend
                  /\ o.pend = s.pend
SameAll(s, o) == SameLoop(s, o) /\ o.volts = s.volts /\ o.books = s.books

Acts(e) == SelectSeq(e.calls, LAMBDA c : c.k \in {"judge", "next", "set"})
KindOf(ph) == CASE ph = "judge" -> "judge" [] ph = "compute" -> "next" [] ph = "apply" -> "set" [] OTHER -> "none"

\* the outcome handed to the specification, taken from the observation
OutOf(s, e) ==
    LET ph == Phase(s)
        a  == Acts(e)
    IN IF ph = "refused" \/ Len(a) = 0 \/ e.exc # "none" THEN [r |-> "raise", v |-> <<>>]
       ELSE CASE ph = "apply"   -> [r |-> "ok", v |-> e.post.volts]
              [] ph = "compute" -> [r |-> "ok", v |-> a[1].sg]
              [] OTHER          -> [r |-> a[1].r, v |-> <<>>]

IterClauses(s, e) ==
    LET ph   == Phase(s)
        a    == Acts(e)
        o    == e.post
        good == ph # "refused" /\ e.exc = "none"
        inj  == e.exc = "injected"
        s2   == Iterate(s, OutOf(s, e))
    IN <<
      \* one action, the right one, by the right group
      C("A01.one_action", good, Len(a) = 1),
      C("A01.right_action", good, \A i \in DOMAIN a : a[i].k = KindOf(ph)),
      C("A01.right_group", good /\ ph \in {"judge", "compute"}, \A i \in DOMAIN a : a[i].g = s.idx + 1),
      C("A01.position", good, o.idx = s2.idx /\ (o.status = 1) = s2.status),
      C("A01.pending", good, (o.hasPend = 1) = s2.hasPend),
      C("A01.verdict", good /\ ph = "judge", \A i \in DOMAIN a : a[i].r \in {"tuned", "not"}),
      C("A01.no_failure", ph # "refused", e.exc # "raised"),
      \* completion
      C("A02.complete", TRUE, (o.complete = 1) = (s2.passed = 1..s.n)),
      C("A02.flag", TRUE, o.complete \in {0, 1} /\ (o.complete = 1) = (o.idx = s.n)),
      \* voltages
      C("A03.unchanged", ph # "apply" \/ e.exc # "none", o.volts = s.volts),
      C("A03.no_set", ph # "apply", \A i \in DOMAIN a : a[i].k # "set"),
      C("A03.exactly_pending", good /\ ph = "apply",
            Len(a) = 1 /\ a[1].k = "set" /\ a[1].v = s.pend /\ a[1].x = 0),
      C("A03.judged_at_present", good /\ ph = "judge",
            \A i \in DOMAIN a : a[i].k = "judge" => a[i].v = s.volts /\ a[i].x = 0),
      C("A03.keeps_suggestion", good /\ ph = "compute",
            Len(a) = 1 => o.hasPend = 1 /\ o.pend = a[1].sg),
      C("A03.discarded_after", good /\ ph = "apply", o.hasPend = 0),
      \* refused or failing
      C("A04.refused", ph = "refused", e.exc # "none"),
      C("A04.refused_nothing", ph = "refused", Len(a) = 0 /\ e.nev = 0 /\ SameAll(s, o)),
      C("A04.failing_nothing", inj, SameAll(s, o)),
      C("A04.passes_error_on", \E i \in DOMAIN a : a[i].r = "raise", e.exc # "none"),
      C("A04.one_attempt", inj, Len(a) <= 1),
      \* what the group is told
      C("A06.told", ph = "compute" /\ Len(a) = 1,
            a[1].k = "next" => Range(a[1].ps) = TunedBelow(s, s.targeted) /\ Len(a[1].ps) = Cardinality(Range(a[1].ps)))
    >>

KnownUpdated(pre, post, volts) ==
    Len(pre) = Len(post) /\
    \A m \in DOMAIN pre : \A g \in DOMAIN volts :
        post[m][g] = IF pre[m][g] = MISS THEN MISS ELSE volts[g]

RestartClauses(s, e) ==
    LET o == e.post IN <<
      C("A05.restart_ok", s.coh, e.exc = "none"),
      C("A05.restart_bottom", TRUE, SameLoop(Restart(s), o)),
      C("A05.restart_members", s.coh /\ e.exc = "none", KnownUpdated(s.members, o.members, o.volts)),
      C("A05.restart_queue", TRUE, \A i \in DOMAIN o.queue : o.queue[i] = 0),
      C("A05.restart_sets_nothing", TRUE, \A i \in DOMAIN e.calls : e.calls[i].k = "restart"),
      C("A05.restart_measures_nothing", TRUE, e.nev = 0 /\ o.books = s.books),
      C("A02.complete_restart", TRUE, o.complete = 0),
      C("A03.restart_no_set", TRUE, \A i \in DOMAIN e.calls : e.calls[i].k # "set")
    >>

Named(e, g, p, c) == {i \in DOMAIN e.changes : e.changes[i][1] = g /\ e.changes[i][2] = p /\ e.changes[i][3] = c}
TargetsAsNamed(s, e) ==
    /\ Len(e.targets) = Len(s.targets)
    /\ \A g \in DOMAIN s.targets :
        /\ Len(e.targets[g]) = Len(s.targets[g])
        /\ \A r \in DOMAIN s.targets[g] :
            LET old == s.targets[g][r]
                new == e.targets[g][r]
            IN /\ old[1] = new[1]
               /\ \A c \in 1..6 : LET hit == Named(e, g, old[1], c) IN
                    new[2][c] = IF hit = {} THEN old[2][c] ELSE e.changes[CHOOSE i \in hit : TRUE][4]

TargetClauses(s, e) ==
    LET o == e.post IN <<
      C("A05.targets_ok", TRUE, e.exc = "none"),
      C("A05.targets_bottom", TRUE, SameLoop(ChangeTargets(s), o)),
      C("A05.targets_named", TRUE, TargetsAsNamed(s, e)),
      C("A05.targets_else", TRUE, o.volts = s.volts /\ o.members = s.members /\ o.books = s.books),
      C("A02.complete_targets", TRUE, o.complete = 0),
      C("A03.targets_no_set", TRUE, Len(e.calls) = 0)
    >>

\* everything measured again at the end of a tuning in which nothing but the voltages matters
FreshClauses(s, e) == <<
      C("A07.in_tolerance", e.wasComplete = 1, AllAccepted(e.groups)),
      C("A07.completes", e.must = 1, e.wasComplete = 1)
    >>

RenameClauses(s, e) == <<C("harness.rename", TRUE, SameAll(s, e.post))>>

Clauses(s, e) == CASE e.op = "iterate" -> IterClauses(s, e)
                   [] e.op = "restart" -> RestartClauses(s, e)
                   [] e.op = "targets" -> TargetClauses(s, e)
                   [] e.op = "fresh" -> FreshClauses(s, e)
                   [] OTHER -> RenameClauses(s, e)

After(s, e) ==
    CASE e.op = "iterate" -> Observe(s, e.post, e.coh = 1, Iterate(s, OutOf(s, e)).passed)
      [] e.op = "targets" -> [Observe(s, e.post, e.coh = 1, {}) EXCEPT !.targets = e.targets, !.targeted = e.targeted]
      [] e.op = "restart" -> Observe(s, e.post, e.coh = 1, {})
      [] OTHER -> Observe(s, e.post, e.coh = 1, s.passed)

Init == /\ InitCounters
        /\ t \in DOMAIN Traces
        /\ l = 1
        /\ st = S0(Traces[t])
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Traces[t].events[l] IN
             /\ Report(t, l, Clauses(st, e))
             /\ st' = After(st, e)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
