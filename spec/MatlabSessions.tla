--------------------------- MODULE MatlabSessions ---------------------------
(* Two users connect to MATLAB sessions: to the running sessions "a" and "b"   *)
(* or to one that is started for them.  What was done in a session stays as    *)
(* long as the session runs; a started one ends with its last user.            *)
EXTENDS Matlab
VARIABLES users, smdata, path, conns, req, result
vars == <<users, smdata, path, conns, req, result>>
USERS == 1..2
SESSIONS == {"a", "b", "s"}
NOREQ == <<>>
InUse == {users[u] : u \in USERS} \ {"none"}

Init == /\ users = [u \in USERS |-> "none"]
        /\ smdata = [x \in SESSIONS |-> x = "b"]
        /\ path = [x \in SESSIONS |-> IF x = "b" THEN "other" ELSE "none"]
        /\ conns = [x \in SESSIONS |-> 0]     \* connections that were made to it and are in use
        /\ req = NOREQ /\ result = <<>>

Ask(u, to, script, overwrite) ==
    /\ req = NOREQ /\ users[u] = "none"
    /\ (to = "start" => "s" \notin InUse)
    /\ req' = <<u, to, script, overwrite>>
    /\ result' = <<>>
    /\ UNCHANGED <<users, smdata, path, conns>>

\* which session answers
Answers(to) == IF to = "start" THEN {"s"}
               ELSE IF Reused(InUse, to) THEN (IF to = "any" THEN InUse ELSE {to})
               ELSE IF to = "any" THEN {"a", "b"} ELSE {to}
Answer ==
    /\ req # NOREQ
    /\ LET u == req[1]  to == req[2]  script == req[3]  overwrite == req[4] IN
       \E x \in Answers(to) :
         /\ result' = <<x, RunsScript(smdata[x], script), ~Refused(smdata[x], script) /\ Warns(path[x], overwrite),
                        Refused(smdata[x], script)>>
         /\ IF Refused(smdata[x], script)
            THEN /\ UNCHANGED <<users, smdata, path, conns>>
            ELSE /\ users' = [users EXCEPT ![u] = x]
                 /\ smdata' = [smdata EXCEPT ![x] = SmdataAfter(smdata[x], script)]
                 /\ path' = [path EXCEPT ![x] = PathAfter(path[x], overwrite)]
                 /\ conns' = [conns EXCEPT ![x] = IF x \in InUse THEN @ ELSE @ + 1]
    /\ req' = NOREQ
Drop(u) ==
    /\ req = NOREQ /\ users[u] # "none"
    /\ users' = [users EXCEPT ![u] = "none"]
    /\ LET gone == \A w \in USERS \ {u} : users[w] # users[u]
           x == users[u]
       IN /\ conns' = IF gone THEN [conns EXCEPT ![x] = @ - 1] ELSE conns
          /\ smdata' = IF gone /\ x = "s" THEN [smdata EXCEPT ![x] = FALSE] ELSE smdata
          /\ path' = IF gone /\ x = "s" THEN [path EXCEPT ![x] = "none"] ELSE path
    /\ result' = <<>>
    /\ UNCHANGED req
Next == \/ Answer
        \/ \E u \in USERS : Drop(u)
        \/ \E u \in USERS, to \in {"start", "any", "a", "b"}, script \in {"none", "good", "bad"},
              overwrite \in {"ask", "no", "yes"} : Ask(u, to, script, overwrite)
Spec == Init /\ [][Next]_vars

ConnectedOnce == \A x \in SESSIONS : conns[x] = IF x \in InUse THEN 1 ELSE 0
NeverUnlearns == [][\A x \in {"a", "b"} : (smdata[x] => smdata'[x]) /\ (path[x] = "own" => path'[x] = "own")]_vars
OnlyOnce == [][(result' # <<>> /\ req # NOREQ /\ smdata[result'[1]]) => ~result'[2]]_vars
UsersFindQtune == \A u \in USERS : users[u] # "none" => path[users[u]] # "none"
==============================================================================
