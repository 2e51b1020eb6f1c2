------------------------------- MODULE StoreTrace -------------------------------
(* Validates round trips of object graphs, runs of the background writer with a *)
(* controlled schedule, snapshots of tunings, and lock step runs of a tuning    *)
(* and its reloaded copy.  cfg.kind: "graph" | "refused" | "writer" | "snap" | "lock"       *)
EXTENDS Store, TraceBase

VARIABLES t, l, st
vars == <<t, l, st>>
Cfg == Traces[t].cfg
Ok(e) == e.exc = "none"

(* --------------------------------- graphs --------------------------------- *)
GraphClauses(e) ==
    LET ok == Ok(e)
        ps == Paired(e.before, e.after)
    IN <<
      C("H01.no_error", TRUE, ok),
      C("H01.content", ok, Content(e.before, e.after, ps)),
      C("H01.identity", ok, Identity(ps)),
      C("H01.arguments_kept", ok, e.before = e.still)
    >>

(* an object whose constructor refuses the saved content                        *)
RefusedClauses(e) ==
    << C("H01.error_reported", TRUE, e.same = 1), C("H01.reload_writes_nothing", TRUE, e.files = 1) >>

(* --------------------------------- writer --------------------------------- *)
(* tasks [id, ver, bad]: bad ones fail before they can be held up              *)
RECURSIVE Skip(_)
Skip(w) == IF w.cur = <<>> /\ w.queue # <<>> /\ Head(w.queue).bad = 1 THEN Skip(Fail(Begin(w))) ELSE w
Settled(s) == [s EXCEPT !.w = Skip(s.w)]
Entry(x) == [id |-> x.id, ver |-> x.ver]
DiskOK(w, disk) == {Entry(disk[i]) : i \in DOMAIN disk} = {Entry(w.done[i]) : i \in DOMAIN w.done}
Unaltered(old, new) == \A i \in DOMAIN old : \E j \in DOMAIN new : new[j] = old[i]

StepW(s, e) ==
    CASE e.op = "submit" /\ Ok(e) -> [s EXCEPT !.w = Skip(Submit(@, [id |-> e.id, ver |-> e.ver, bad |-> e.bad]))]
      [] e.op = "begin" /\ e.id # 0 /\ CanBegin(s.w) -> [s EXCEPT !.w = Begin(@)]
      [] e.op = "finish" /\ s.w.cur # <<>> -> [s EXCEPT !.w = Skip(Finish(@))]
      [] e.op = "fail" /\ s.w.cur # <<>> -> [s EXCEPT !.w = Skip(Fail(@))]
      [] e.op = "return" -> [s EXCEPT !.w = IF e.what = "join" THEN Stop(@) ELSE Resume(@)]
      [] OTHER -> s
WriterClauses(s, e) ==
    LET w == s.w
        w2 == StepW(s, e).w
        disk == e.disk
    IN <<
      C("H04.accepts", e.op = "submit" /\ w.running, Ok(e)),
      C("H04.refuses", e.op = "submit" /\ ~w.running, ~Ok(e)),
      C("H04.order", e.op = "begin", CanBegin(w) /\ e.id = Head(w.queue).id),
      C("H04.returns", e.op = "return", e.returned = 1),
      C("H04.no_error", e.op = "return", Ok(e)),
      C("H04.not_early", e.op = "waiting" /\ ~Drained(w), e.returned = 0),
      C("H04.all_written", e.op = "return" /\ e.returned = 1, Drained(w) /\ DiskOK(w, disk)),
      C("H04.written", e.op = "finish", DiskOK(w2, disk)),
      C("H04.content", e.op \in {"finish", "return"}, \A i \in DOMAIN disk : \A k \in DOMAIN w2.done :
            disk[i].id = w2.done[k].id => disk[i].ver = w2.done[k].ver),
      \* the program ends: every accepted task that can be written is written
      C("H04.program_end", e.op = "end", /\ e.returned = 1
                                        /\ {Entry(disk[i]) : i \in DOMAIN disk}
                                             = {Entry(x) : x \in {y \in Range(w.done \o w.cur \o w.queue) : y.bad = 0}}),
      C("H04.failing_alone", e.op = "fail", DiskOK(w2, disk)),
      C("H03.never_altered", TRUE, Unaltered(s.disk, disk)),
      C("H03.crash", e.op = "crash", /\ \A x \in Range(w.done) : \E j \in DOMAIN disk : disk[j].id = x.id /\ disk[j].ver = x.ver
                                     /\ \A j \in DOMAIN disk : \E x \in Range(w.done \o w.cur \o w.queue) :
                                            disk[j].id = x.id /\ disk[j].ver = x.ver)
    >>

(* -------------------------------- snapshots -------------------------------- *)
(* s: digests of the states after each successful iteration, lost: numbers of   *)
(* snapshots whose write was made to fail, held: number of the snapshot being   *)
(* written or 0                                                                 *)
Writable(s) == SelectSeq([i \in DOMAIN s.digests |-> i], LAMBDA i : i \notin s.lost)
SnapClauses(s, e) == <<
      C("H03.one_file", e.op = "iterate" /\ e.good = 1, e.newname = 1),
      C("H03.none_if_failed", e.op = "iterate" /\ e.good = 0, e.newname = 0),
      C("H03.chronological", e.op = "scan", \A i \in DOMAIN e.order : e.order[i] = i),
      \* e.complete: digests of the files that can be read, by number of the iteration, "" if there is none
      C("H03.content", e.op = "scan", \A i \in DOMAIN e.complete :
            e.complete[i] # "" => (i \in DOMAIN s.digests /\ e.complete[i] = s.digests[i])),
      C("H03.all_written", e.op = "scan" /\ e.drained = 1, \A i \in DOMAIN s.digests :
            i \notin s.lost => (i \in DOMAIN e.complete /\ e.complete[i] = s.digests[i])),
      C("H03.earlier_complete", e.op = "scan" /\ e.drained = 0, \A i \in DOMAIN s.digests :
            (i < e.current /\ i \notin s.lost) => (i \in DOMAIN e.complete /\ e.complete[i] = s.digests[i])),
      C("H03.unaltered", e.op = "scan", \A i \in DOMAIN s.read : s.read[i] # "" =>
            (i \in DOMAIN e.complete /\ e.complete[i] = s.read[i])),
      C("H03.foreign_files", e.op = "scan", e.foreign = 0)
    >>
StepS(s, e) ==
    CASE e.op = "iterate" -> [s EXCEPT !.digests = IF e.good = 1 THEN Append(@, e.digest) ELSE @,
                                       !.lost = IF e.good = 1 /\ e.willfail = 1 THEN @ \cup {Len(s.digests) + 1} ELSE @]
      [] e.op = "scan" -> [s EXCEPT !.read = e.complete]
      [] OTHER -> s

(* -------------------------------- lock step -------------------------------- *)
LockClauses(e) ==
    IF e.op = "reload" THEN <<
      C("H02.reloads", TRUE, Ok(e)),
      C("H02.state", Ok(e), e.a = e.b)
    >> ELSE IF e.op = "iterate" THEN <<
      C("H02.same_outcome", TRUE, e.a.exc = e.b.exc),
      C("H02.same_position", TRUE, e.a.idx = e.b.idx /\ e.a.status = e.b.status),
      C("H02.same_voltages", TRUE, VecNear(e.a.volts, e.b.volts, 1) /\ e.a.hasPend = e.b.hasPend /\ VecNear(e.a.pend, e.b.pend, 1)),
      C("H02.same_completion", TRUE, e.a.complete = e.b.complete),
      C("H02.same_measurements", TRUE, e.a.evals = e.b.evals),
      C("H02.same_judgement", TRUE, e.a.judged = e.b.judged),
      C("H02.same_state", TRUE, e.a.digest = e.b.digest)
    >> ELSE <<>>

Clauses(s, e) ==
    CASE Cfg.kind = "graph" -> GraphClauses(e)
      [] Cfg.kind = "refused" -> RefusedClauses(e)
      [] Cfg.kind = "writer" -> WriterClauses(s, e)
      [] Cfg.kind = "snap" -> SnapClauses(s, e)
      [] Cfg.kind = "lock" -> LockClauses(e)
After(s, e) ==
    CASE Cfg.kind = "writer" -> [StepW(s, e) EXCEPT !.disk = e.disk]
      [] Cfg.kind = "snap" -> StepS(s, e)
      [] OTHER -> s
S0(k) == CASE k = "writer" -> [w |-> Start0, disk |-> <<>>]
           [] k = "snap" -> [digests |-> <<>>, lost |-> {}, read |-> <<>>]
           [] OTHER -> [none |-> 0]

Init == /\ InitCounters
        /\ t \in DOMAIN Traces
        /\ l = 1
        /\ st = S0(Traces[t].cfg.kind)
Next == /\ l <= Len(Traces[t].events)
        /\ LET e == Traces[t].events[l] IN
             /\ Report(t, l, Clauses(st, e))
             /\ st' = After(st, e)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
