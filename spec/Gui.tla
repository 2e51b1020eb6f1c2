-------------------------------- MODULE Gui --------------------------------
(* What the worker of the graphical interface may, and has to, do after what  *)
(* the user requested: a monitor of the calls (check whether the tuning is    *)
(* complete, iterate, append to the history) and of the user's actions.       *)
EXTENDS Integers, Sequences

Calls == {"check", "iterate", "append"}

\* call: the call in progress.  next: what belongs to the iteration that has begun, or "check" between iterations.
\* cont: does the worker have to go on, may it, or must it not.  step, may: a step was requested that has to be done, or
\* may be done as it was requested while the worker was busy.  grace: one iteration may be about to begin although the
\* request was withdrawn.  calm: the worker was seen to do nothing and nothing was requested since.  fail: the worker is
\* about to withdraw the requests as the tuning is complete or has failed.  skip: the iteration may be abandoned.
M0 == [call |-> "none", next |-> "check", cont |-> "no", step |-> FALSE, may |-> FALSE, grace |-> FALSE,
       calm |-> TRUE, fail |-> FALSE, skip |-> FALSE, late |-> FALSE, alive |-> TRUE]

Start(m, tuner) ==
    [m EXCEPT !.cont = IF ~tuner \/ (m.fail /\ ~m.calm) THEN (IF @ = "must" THEN @ ELSE "may") ELSE "must",
              !.calm = FALSE, !.skip = FALSE, !.alive = TRUE, !.late = ~m.calm]
Step(m, tuner) ==
    [m EXCEPT !.step = IF m.calm /\ tuner THEN TRUE ELSE @,
              !.may = IF m.calm /\ tuner THEN @ ELSE TRUE,
              !.calm = FALSE, !.alive = TRUE, !.late = ~m.calm]
\* what was requested while the worker was busy may take effect until the request returns
Started(m) == IF m.late THEN [m EXCEPT !.cont = IF @ = "no" THEN "may" ELSE @, !.late = FALSE] ELSE m
Stepped(m) == IF m.late THEN [m EXCEPT !.may = TRUE, !.late = FALSE] ELSE m
Withdrawn(m) ==
    [m EXCEPT !.cont = "no", !.step = FALSE, !.may = FALSE, !.skip = TRUE,
              !.grace = m.grace \/ (~m.calm /\ m.call = "none" /\ m.next = "check")]
\* the worker has ended
Closed(m) == [M0 EXCEPT !.alive = FALSE]
Restarted(m) == M0

Asked(m) == m.cont # "no" \/ m.step \/ m.may \/ m.grace
OneAtATime(m) == m.call = "none"
InOrder(m, c) == m.next = c \/ (c = "check" /\ m.next = "iterate" /\ m.skip)
CallBegins(m, c) ==
    IF c = "check"
    THEN [m EXCEPT !.call = c, !.next = c, !.calm = FALSE, !.fail = FALSE, !.skip = FALSE,
                   !.step = FALSE,
                   !.grace = IF m.cont = "no" /\ ~m.step THEN FALSE ELSE @,
                   !.may = IF m.cont = "no" /\ ~m.step /\ ~m.grace THEN FALSE ELSE @]
    ELSE [m EXCEPT !.call = c, !.next = c]
\* r: "true", "false" (check), "ok" (iterate, append), "raise", "die"
CallReturns(m, c, r, history) ==
    CASE r = "die" -> [M0 EXCEPT !.alive = FALSE, !.calm = FALSE, !.late = m.late]
      [] r \in {"raise", "true"} -> [m EXCEPT !.call = "none", !.next = "check", !.cont = "no", !.fail = TRUE]
      [] r = "false" -> [m EXCEPT !.call = "none", !.next = "iterate"]
      [] c = "iterate" /\ history -> [m EXCEPT !.call = "none", !.next = "append"]
      [] OTHER -> [m EXCEPT !.call = "none", !.next = "check"]

\* the worker does nothing
Finished(m) == m.call = "none" /\ m.next # "append" /\ (m.next = "iterate" => m.skip)
Honoured(m) == m.alive => m.cont # "must" /\ ~m.step
Quiet(m) == [M0 EXCEPT !.alive = m.alive]

Results(c) == IF c = "check" THEN {"true", "false", "raise", "die"} ELSE {"ok", "raise", "die"}
============================================================================
