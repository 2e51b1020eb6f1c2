------------------------------ MODULE GuiTrace ------------------------------
(* Runs of the graphical interface: the user's requests, the calls received   *)
(* by autotuner and history and what was seen when everything had come to     *)
(* rest; and the window that reloads an earlier iteration.                    *)
EXTENDS TraceBase, Gui, Sequences
VARIABLES t, l, st
vars == <<t, l, st>>

Cfg(i) == Traces[i].cfg
Tuner(i) == Cfg(i).tuner = 1
Hist(i) == Cfg(i).history = 1

Step2(s, e, i) ==
    CASE e.op = "start" -> Start(s, Tuner(i))
      [] e.op = "step" -> Step(s, Tuner(i))
      [] e.op = "done" /\ e.a = "start" -> Started(s)
      [] e.op = "done" /\ e.a = "step" -> Stepped(s)
      [] e.op \in {"paused", "closing"} -> Withdrawn(s)
      [] e.op = "closed" -> Closed(s)
      [] e.op = "restarted" -> Restarted(s)
      [] e.op = "call" -> CallBegins(s, e.c)
      [] e.op = "ret" -> CallReturns(s, e.c, e.r, Hist(i))
      [] e.op = "quiet" -> Quiet([s EXCEPT !.alive = e.alive = 1])
      [] OTHER -> s

Clamp(x, n) == IF x < 0 THEN 0 ELSE IF x >= n THEN n - 1 ELSE x

Clauses(s, e, i) ==
    CASE e.op = "call" /\ e.c = "check" -> <<
            C("U01.only_on_request", TRUE, Asked(s)),
            C("U01.one_at_a_time", TRUE, OneAtATime(s)),
            C("U01.iteration_is_finished", s.next # "append", InOrder(s, "check")),
            C("U02.appended", s.next = "append", FALSE) >>
      [] e.op = "call" /\ e.c = "iterate" -> <<
            C("U01.one_at_a_time", TRUE, OneAtATime(s)),
            C("U01.not_after_completion", TRUE, s.next # "check"),
            C("U02.appended", s.next = "append", FALSE) >>
      [] e.op = "call" /\ e.c = "append" -> <<
            C("U02.after_the_iteration", TRUE, OneAtATime(s) /\ s.next = "append"),
            C("U02.who_iterated", TRUE, e.who = e.last) >>
      [] e.op = "quiet" -> <<
            C("U01.requests_are_honoured", TRUE, Honoured([s EXCEPT !.alive = e.alive = 1])),
            C("U01.iteration_is_finished", s.next # "append", Finished(s)),
            C("U02.appended", s.next = "append", FALSE),
            C("U01.worker_lives", s.alive /\ s.call = "none", e.alive = 1),
            C("U01.buttons", e.buttons # <<>> /\ e.alive = 1, e.buttons = <<1, 1, 0>>) >>
      [] e.op = "parked" -> << C("U01.buttons", e.buttons # <<>> /\ s.cont = "must", e.buttons[1] = 0 /\ e.buttons[3] = 1) >>
      [] e.op \in {"closed", "restarted"} -> <<
            C("U01.close_ends", TRUE, s.call = "none" /\ e.exc = "none" /\ (e.op = "closed" => e.alive = 0)),
            C("U02.appended", s.next = "append", FALSE) >>
      [] e.op \in {"done", "paused"} -> << C("U01.no_error", TRUE, e.exc = "none") >>
      \* a request which is withdrawn at once is not executed (one may have been seen by the worker in between)
      [] e.op = "revoked" -> << C("U01.withdrawn", TRUE, 2 * e.hits < e.tries) >>
      \* reload
      [] e.op = "number" -> << C("U03.number", TRUE, e.exc = "none" /\ e.shown = ToString(Clamp(e.typed, e.n))) >>
      [] e.op = "voltages" -> <<
            C("U03.voltages", TRUE, e.volts = e.want),
            C("U03.restarted", TRUE, e.pos = 0 /\ e.pend = 0 /\ \A k \in DOMAIN e.known : e.known[k] = e.want) >>
      [] e.op = "state" -> <<
            C("U03.state", TRUE, e.a = e.b),
            C("U03.handed_over", TRUE, e.mine = 1),
            C("U03.experiment", TRUE, e.exp = 1 /\ e.volts = e.before) >>
      [] OTHER -> <<>>

Init == /\ InitCounters
        /\ t \in DOMAIN Traces
        /\ l = 1
        /\ st = M0
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Traces[t].events[l]
           IN /\ Report(t, l, Clauses(st, e, t))
              /\ st' = Step2(st, e, t)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
==============================================================================
