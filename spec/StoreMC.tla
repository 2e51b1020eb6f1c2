-------------------------------- MODULE StoreMC --------------------------------
(* Life of a background writer: tasks are submitted at any time, their object *)
(* goes on changing, writes may fail, join and restart, and the process may   *)
(* be killed at any moment.                                                   *)
EXTENDS Store

CONSTANTS MAXID,    \* number of submissions
          MAXVER,   \* number of changes of the object
          FAILS     \* number of failing writes

VARIABLES w, ver, nid, waiting, crashed, accepted, op
vars == <<w, ver, nid, waiting, crashed, accepted, op>>
\* waiting: "no", "join" or "restart": somebody waits for the writer to finish

Init == /\ w = Start0 /\ ver = 1 /\ nid = 1 /\ waiting = "no" /\ crashed = FALSE /\ accepted = <<>> /\ op = "init"
Alive == ~crashed

SubmitT == /\ Alive /\ waiting = "no" /\ w.running /\ nid <= MAXID
           /\ w' = Submit(w, [id |-> nid, ver |-> ver]) /\ accepted' = Append(accepted, [id |-> nid, ver |-> ver])
           /\ nid' = nid + 1 /\ op' = "submit" /\ UNCHANGED <<ver, waiting, crashed>>
Refuse == /\ Alive /\ waiting = "no" /\ ~w.running
          /\ op' = "refuse" /\ UNCHANGED <<w, ver, nid, waiting, crashed, accepted>>
Mutate == /\ Alive /\ ver < MAXVER /\ accepted # <<>> /\ ver' = ver + 1 /\ op' = "mutate"
          /\ UNCHANGED <<w, nid, waiting, crashed, accepted>>
BeginT == /\ Alive /\ w.running /\ CanBegin(w) /\ w' = Begin(w) /\ op' = "begin"
          /\ UNCHANGED <<ver, nid, waiting, crashed, accepted>>
FinishT == /\ Alive /\ w.cur # <<>> /\ w' = Finish(w) /\ op' = "finish"
           /\ UNCHANGED <<ver, nid, waiting, crashed, accepted>>
FailT == /\ Alive /\ w.cur # <<>> /\ Cardinality(w.lost) < FAILS /\ w' = Fail(w) /\ op' = "fail"
         /\ UNCHANGED <<ver, nid, waiting, crashed, accepted>>
Join == /\ Alive /\ waiting = "no" /\ waiting' = "join" /\ op' = "join"
        /\ UNCHANGED <<w, ver, nid, crashed, accepted>>
RestartT == /\ Alive /\ waiting = "no" /\ waiting' = "restart" /\ op' = "restart"
            /\ UNCHANGED <<w, ver, nid, crashed, accepted>>
Return == /\ Alive /\ waiting # "no" /\ Drained(w)
          /\ w' = IF waiting = "join" THEN Stop(w) ELSE Resume(w)
          /\ waiting' = "no" /\ op' = "return" /\ UNCHANGED <<ver, nid, crashed, accepted>>
Crash == /\ Alive /\ crashed' = TRUE /\ op' = "crash" /\ UNCHANGED <<w, ver, nid, waiting, accepted>>

Next == SubmitT \/ Refuse \/ Mutate \/ BeginT \/ FinishT \/ FailT \/ Join \/ RestartT \/ Return \/ Crash
Spec == Init /\ [][Next]_vars

Without(seq, ids) == SelectSeq(seq, LAMBDA x : x.id \notin ids)
InOrder == w.done \o w.cur \o w.queue = Without(accepted, w.lost)
Complete == (waiting = "no" /\ ~w.running) => w.done = Without(accepted, w.lost)
CrashCost == crashed => \A i \in DOMAIN accepted :
                accepted[i].id \in w.lost \/ accepted[i] \in Range(w.done) \/ accepted[i] \in Range(w.cur \o w.queue)
NeverAltered == [][\E n \in 0..Len(w'.done) : SubSeq(w'.done, 1, n) = w.done]_vars
Inv == InOrder /\ Complete /\ CrashCost
LiveSpec == Spec /\ WF_vars(BeginT) /\ WF_vars(FinishT \/ FailT) /\ WF_vars(Return)
JoinReturns == (waiting # "no") ~> (waiting = "no" \/ crashed)
=============================================================================
