----------------------------- MODULE MatlabGates -----------------------------
(* Three gates behind MATLAB.  A request asks for the voltages of some of      *)
(* them (-1: not asked for), through one of two experiments; a value above     *)
(* LIMIT is refused by the device, which then changes nothing.                 *)
EXTENDS Integers, Sequences
CONSTANTS LIMIT
VARIABLES v, req, through, sent, answer
vars == <<v, req, through, sent, answer>>
GATES == 1..3
NOREQ == <<>>
MergeGates(old, new) == [g \in DOMAIN old |-> IF new[g] = -1 THEN old[g] ELSE new[g]]
Requests == [GATES -> -1..(LIMIT + 1)]
TypeOk == v \in [GATES -> 0..LIMIT]

Init == v = [g \in GATES |-> 0] /\ req = NOREQ /\ through = "" /\ sent = <<>> /\ answer = ""
Ask(e, r) == /\ req = NOREQ /\ req' = r /\ through' = e
             /\ sent' = <<>> /\ answer' = "" /\ UNCHANGED v
Answer == /\ req # NOREQ
          /\ sent' = MergeGates(v, req)
          /\ IF \E g \in GATES : sent'[g] > LIMIT
             THEN answer' = "refused" /\ UNCHANGED v
             ELSE answer' = "set" /\ v' = sent'
          /\ req' = NOREQ /\ through' = ""
Next == Answer \/ \E e \in {"dqd", "qqd"}, r \in Requests : Ask(e, r)
Spec == Init /\ [][Next]_vars

AllSent == answer # "" => DOMAIN sent = GATES
KeepsOthers == [][\A g \in GATES : (req # NOREQ /\ req[g] = -1) => v'[g] = v[g]]_vars
SetsRequested == [][(req # NOREQ /\ answer' = "set") => \A g \in GATES : req[g] # -1 => v'[g] = req[g]]_vars
RefusedChangesNothing == [][answer' = "refused" => v' = v]_vars
==============================================================================
