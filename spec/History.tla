------------------------------- MODULE History -------------------------------
(* The history of a tuning: one row per maximal run of iterations with the   *)
(* same voltages.                                                            *)
(*                                                                           *)
(* A row r:  r.id  identifies the voltages, r.v the voltages themselves,     *)
(*           r.c   a cell per recorded quantity (MISS: absent),              *)
(*           r.f   the snapshot of the last iteration of the row             *)
(* An observed iteration x:                                                  *)
(*   x.id, x.v   voltages at the last judgement of the lowest group          *)
(*   x.cur       the present quantities of all groups                        *)
(*   x.gs        the groups judged at these voltages that the state still    *)
(*               tells of: those judged since the row was last brought up to *)
(*               date (usually the one group judged in this iteration)       *)
(*   x.f         the name of the snapshot                                    *)
(* owner[i]: the groups quantity i belongs to                                    *)
EXTENDS Enc

Blank(owner) == [i \in DOMAIN owner |-> MISS]
Put(cells, x, owner) == [i \in DOMAIN owner |->
                            IF owner[i] \cap x.gs # {} /\ x.cur[i] # MISS THEN x.cur[i] ELSE cells[i]]

\* the first row holds everything that is known when the history starts
AppendRow(rows, x, owner) ==
    CASE rows = <<>> -> <<[id |-> x.id, v |-> x.v, c |-> x.cur, f |-> x.f]>>
      [] rows # <<>> /\ Last(rows).id = x.id ->
             [rows EXCEPT ![Len(rows)] = [@ EXCEPT !.c = Put(@, x, owner), !.f = x.f]]
      [] OTHER -> Append(rows, [id |-> x.id, v |-> x.v, c |-> Put(Blank(owner), x, owner), f |-> x.f])

\* the history rebuilt from stored states
RECURSIVE Rebuild(_, _)
Rebuild(xs, owner) == IF xs = <<>> THEN <<>>
                      ELSE AppendRow(Rebuild(SubSeq(xs, 1, Len(xs) - 1), owner), Last(xs), owner)

\* Judgements which a history was not told of are forgotten when the tuning starts again at the lowest group:
\* since: groups judged since the last appended iteration, judged: the group judged in this one or 0
Since(since, phase, judged) == IF phase = "apply" THEN {} ELSE IF judged = 0 THEN since ELSE since \cup {judged}

\* what a state says about the group judged last: a snapshot only contains the state
JudgedAccordingTo(idx, status, hasPend) == IF hasPend \/ status THEN idx + 1 ELSE idx
==============================================================================
