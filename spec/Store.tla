--------------------------------- MODULE Store ---------------------------------
(* Storage of objects.                                                        *)
(*                                                                            *)
(* 1. Object graphs: a sequence of nodes [kind, val, kids], kids a sequence   *)
(*    of [l, n] (label, number of the node).  Node 1 is the root.             *)
(* 2. The background writer: w = [running, queue, cur, done, lost, next]      *)
(*    queue: accepted tasks [id, ver]; cur: <<>> or <<task>> being written;   *)
(*    done: sequence of tasks written; lost: ids whose write failed.          *)
EXTENDS Enc

(* ------------------------------- graphs ---------------------------------- *)
Labels(node) == [i \in DOMAIN node.kids |-> node.kids[i].l]
Matches(x, y) == x.kind = y.kind /\ x.val = y.val /\ Labels(x) = Labels(y)
Kids(a, b, pair) == {<<a[pair[1]].kids[i].n, b[pair[2]].kids[i].n>> :
                        i \in DOMAIN a[pair[1]].kids \cap DOMAIN b[pair[2]].kids}
RECURSIVE Close(_, _, _, _)
\* all pairs of nodes reached over the same path
Close(a, b, done, todo) ==
    IF todo = {} THEN done
    ELSE LET p == CHOOSE x \in todo : TRUE
             d == done \cup {p}
         IN Close(a, b, d, (todo \cup Kids(a, b, p)) \ d)
Paired(a, b) == Close(a, b, {}, {<<1, 1>>})
Content(a, b, ps) == \A p \in ps : Matches(a[p[1]], b[p[2]])
\* one and the same before <=> one and the same after
Identity(ps) == \A p, q \in ps : (p[1] = q[1]) = (p[2] = q[2])
Isomorphic(a, b) == LET ps == Paired(a, b) IN Content(a, b, ps) /\ Identity(ps)

(* ------------------------------- writer ---------------------------------- *)
Start0 == [running |-> TRUE, queue |-> <<>>, cur |-> <<>>, done |-> <<>>, lost |-> {}]
Submit(w, task) == [w EXCEPT !.queue = Append(@, task)]
CanBegin(w) == w.cur = <<>> /\ w.queue # <<>>
Begin(w) == [w EXCEPT !.cur = <<Head(w.queue)>>, !.queue = Tail(@)]
Finish(w) == [w EXCEPT !.done = Append(@, w.cur[1]), !.cur = <<>>]
Fail(w) == [w EXCEPT !.lost = @ \cup {w.cur[1].id}, !.cur = <<>>]
Drained(w) == w.queue = <<>> /\ w.cur = <<>>
Stop(w) == [w EXCEPT !.running = FALSE]
Resume(w) == [w EXCEPT !.running = TRUE]
=============================================================================
