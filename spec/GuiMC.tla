------------------------------- MODULE GuiMC -------------------------------
(* User actions while the worker is inside a call or does nothing; the state  *)
(* graph is replayed with the real interface.                                 *)
EXTENDS Gui
CONSTANT HISTORY
VARIABLES m, op
vars == <<m, op>>

Init == m = M0 /\ op = "init"
Act(name, m2) == m' = m2 /\ op' = name
\* the worker has come to rest in a call or nowhere
Parked == m.call # "none" \/ m.calm \/ ~m.alive
User == /\ Parked
        /\ \/ Act("start", Started(Start(m, TRUE)))
           \/ Act("step", Stepped(Step(m, TRUE)))
           \/ Act("pause", Withdrawn(m))
           \/ m.call = "none" /\ Act("restart", Restarted(m))
Closing == Parked /\ m.alive /\ Act("close", [Withdrawn(m) EXCEPT !.alive = FALSE])
Call == /\ m.call = "none" /\ ~m.calm /\ m.alive
        /\ IF m.next = "check" THEN Asked(m) ELSE TRUE
        /\ Act("call_" \o m.next, CallBegins(m, m.next))
Return == /\ m.call # "none"
          /\ \E r \in Results(m.call) : Act("ret_" \o r, CallReturns(m, m.call, r, HISTORY))
Rest == /\ ~m.calm /\ m.call = "none" /\ Finished(m) /\ Honoured(m)
        /\ ~(m.alive /\ m.cont = "must")
        /\ Act("quiet", Quiet(m))
Next == User \/ Closing \/ Call \/ Return \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Call) /\ WF_vars(Return) /\ WF_vars(Rest)

NothingUnasked == m.call = "check" => ~m.calm
CalmIsIdle == m.calm => m.call = "none" /\ m.cont = "no" /\ ~m.step /\ ~m.may /\ ~m.grace
\* requests are honoured and everything comes to an end unless it has to go on
StepHonoured == m.step ~> ~m.step
StartHonoured == (m.cont = "must" /\ m.next = "check" /\ m.call = "none") ~> (m.call = "check" \/ m.cont # "must")
============================================================================
