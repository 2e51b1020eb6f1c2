------------------------------ MODULE TraceBase ------------------------------
(* Common part of all trace specifications.  A trace file holds a sequence   *)
(* of traces, each with a configuration, an initial observation and events.  *)
(* Every event is judged by clauses <<name, antecedent, consequent>>; a      *)
(* failing clause is reported by name and the specification goes on with     *)
(* the observed state, so that the rest of the trace is checked, too.        *)
EXTENDS Enc, Json, IOUtils

TraceFile == IOEnv.TRACE_FILE
Traces == JsonDeserialize(TraceFile)

\* the consequent is only evaluated if the antecedent holds
C(name, ante, cons) == IF ante THEN <<name, TRUE, cons>> ELSE <<name, FALSE, TRUE>>

\* what holds for an original holds for its reloaded copy
Again(t, l) == \E k \in 1..(l - 1) : Traces[t].events[k].op = "reload"
AsBefore(name, t, l, cl) == Append(cl, C(name, Again(t, l), \A i \in DOMAIN cl : cl[i][2] => cl[i][3]))

Bump(f, names) == [n \in DOMAIN f \cup names |->
                     (IF n \in DOMAIN f THEN f[n] ELSE 0) + (IF n \in names THEN 1 ELSE 0)]

Report(t, l, cl) ==
    /\ TLCSet(1, Bump(TLCGet(1), {cl[i][1] : i \in {j \in DOMAIN cl : cl[j][2]}}))
    /\ \A i \in DOMAIN cl :
          (cl[i][2] /\ ~cl[i][3]) =>
             PrintT("VIOL|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o cl[i][1])

InitCounters == TLCSet(1, [n \in {} |-> 0])

RECURSIVE TotalEvents(_)
TotalEvents(n) == IF n = 0 THEN 0 ELSE Len(Traces[n].events) + TotalEvents(n - 1)

\* every event of every trace was consumed
AllConsumed ==
    /\ \A n \in DOMAIN TLCGet(1) : PrintT("HIT|" \o n \o "|" \o ToString(TLCGet(1)[n]))
    /\ PrintT("EVENTS|" \o ToString(TotalEvents(Len(Traces))) \o "|" \o ToString(TLCGet("stats").generated))
    /\ TLCGet("stats").generated = TotalEvents(Len(Traces)) + Len(Traces)
=============================================================================
