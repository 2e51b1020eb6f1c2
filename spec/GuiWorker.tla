----------------------------- MODULE GuiWorker -----------------------------
(* The algorithm of the worker and of the user's actions, one access to a     *)
(* shared flag at a time, watched by the monitor of Gui.tla: no interleaving  *)
(* is rejected, i.e. what the traces of the code are judged by follows from   *)
(* the algorithm, and requests are honoured.                                  *)
EXTENDS Gui
CONSTANT LIMIT     \* user actions per behaviour
VARIABLES w,                    \* the worker is at
          cont, stepped, stop,  \* flags
          u,                    \* the user's action is at
          n, m, bad
vars == <<w, cont, stepped, stop, u, n, m, bad>>

Init == /\ w = "outer" /\ u = "none" /\ n = 0
        /\ cont = FALSE /\ stepped = FALSE /\ stop = FALSE
        /\ m = M0 /\ bad = "none"

Judge(ok, name) == bad' = IF bad = "none" /\ ~ok THEN name ELSE bad
Go(pc) == w' = pc /\ UNCHANGED <<cont, stepped, stop, u, n, m, bad>>
If(at, c, yes, no) == w = at /\ Go(IF c THEN yes ELSE no)

Loop == \/ If("outer", stop, "dead", "w1")
        \/ If("w1", stop, "i1", "w2")
        \/ If("w2", cont, "i1", "w3")
        \/ If("w3", stepped, "i1", "w1")
        \/ If("i1", cont, "i3", "i2")
        \/ If("i2", stepped, "i3", "outer")
        \/ If("i3", stop, "outer", "check")
Call(c) == /\ w = c
           /\ w' = "in_" \o c
           /\ m' = CallBegins(m, c)
           /\ Judge((c = "check" => Asked(m)) /\ OneAtATime(m) /\ InOrder(m, c), c)
           /\ UNCHANGED <<cont, stepped, stop, u, n>>
After(c, r) == CASE r = "die" -> "dead"
                 [] r \in {"raise", "true"} -> "p1"
                 [] r = "false" -> "iterate"
                 [] c = "iterate" -> "append"
                 [] OTHER -> "clear"
Return(c) == /\ w = "in_" \o c
             /\ \E r \in Results(c) : w' = After(c, r) /\ m' = CallReturns(m, c, r, TRUE)
             /\ UNCHANGED <<cont, stepped, stop, u, n, bad>>
\* the worker pauses itself
Pauses == \/ w = "p1" /\ w' = "p2" /\ cont' = FALSE /\ UNCHANGED <<stepped, stop, u, n, m, bad>>
          \/ w = "p2" /\ w' = "clear" /\ stepped' = FALSE /\ UNCHANGED <<cont, stop, u, n, m, bad>>
          \/ w = "clear" /\ w' = "i1" /\ stepped' = FALSE /\ UNCHANGED <<cont, stop, u, n, m, bad>>
Worker == Loop \/ Pauses \/ (\E c \in Calls : Call(c) \/ Return(c))

\* the user's actions -------------------------------------------------------
Begins(a, m2) == /\ u = "none" /\ n < LIMIT /\ u' = a /\ n' = n + 1 /\ m' = m2
                 /\ UNCHANGED <<w, cont, stepped, stop, bad>>
Begin == \/ Begins("start", Start(m, TRUE))
         \/ Begins("step", Step(m, TRUE))
         \/ Begins("pause", m)
         \/ Begins("close", m)
UserDoes == \/ u = "start" /\ u' = (IF w = "dead" THEN "s_restart" ELSE "s_set")
               /\ UNCHANGED <<w, cont, stepped, stop, n, m, bad>>
            \/ u = "step" /\ u' = (IF w = "dead" THEN "t_restart" ELSE "t_set")
               /\ UNCHANGED <<w, cont, stepped, stop, n, m, bad>>
            \* the flags are cleared before the new worker is started
            \/ u \in {"s_restart", "t_restart"} /\ w' = "outer" /\ cont' = FALSE /\ stepped' = FALSE /\ stop' = FALSE
               /\ u' = (IF u = "s_restart" THEN "s_set" ELSE "t_set") /\ UNCHANGED <<n, m, bad>>
            \/ u = "s_set" /\ cont' = TRUE /\ u' = "none" /\ m' = Started(m) /\ UNCHANGED <<w, stepped, stop, n, bad>>
            \/ u = "t_set" /\ stepped' = TRUE /\ u' = "none" /\ m' = Stepped(m) /\ UNCHANGED <<w, cont, stop, n, bad>>
            \/ u = "pause" /\ cont' = FALSE /\ u' = "pause2" /\ UNCHANGED <<w, stepped, stop, n, m, bad>>
            \/ u = "pause2" /\ stepped' = FALSE /\ u' = "none" /\ m' = Withdrawn(m)
               /\ UNCHANGED <<w, cont, stop, n, bad>>
            \/ u = "close" /\ stop' = TRUE /\ u' = "join" /\ UNCHANGED <<w, cont, stepped, n, m, bad>>
            \/ u = "join" /\ w = "dead" /\ u' = "none" /\ m' = Closed(m)
               /\ Judge(m.call = "none" /\ m.next # "append", "closed")
               /\ UNCHANGED <<w, cont, stepped, stop, n>>
\* it is seen that the worker does nothing
Seen == /\ u = "none" /\ ~m.calm
        /\ \/ w \in {"w1", "w2", "w3"} /\ ~cont /\ ~stepped /\ ~stop
           \/ w = "dead"
        /\ m' = Quiet([m EXCEPT !.alive = w # "dead"])
        /\ Judge(Finished(m) /\ Honoured([m EXCEPT !.alive = w # "dead"]), "quiet")
        /\ UNCHANGED <<w, cont, stepped, stop, u, n>>
Next == Worker \/ Begin \/ UserDoes \/ Seen
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ WF_vars(UserDoes)

NeverRejected == bad = "none"
CloseEnds == (u = "join") ~> (u = "none")
StepHonoured == m.step ~> ~m.step
============================================================================
