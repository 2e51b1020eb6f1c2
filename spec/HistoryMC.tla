------------------------------ MODULE HistoryMC ------------------------------
(* A tuning that is recorded live and in snapshots.                          *)
EXTENDS Loop, History

CONSTANTS N,      \* groups
          MAXN,   \* iterations
          LOSSY,  \* iterations may be left out of the history
          FULL    \* values and snapshots are recorded; otherwise only which cells are present

VARIABLES s, lastv, cur, rows, snaps, k, op,
          since,  \* groups judged since the last appended iteration
          may     \* iterations may be left out until the lowest group is judged again
vars == <<s, lastv, cur, rows, snaps, k, op, since, may>>
VOLTS == {0, 1}
owner == [i \in 1..N |-> {i}]

Init == /\ s = [n |-> N, idx |-> 0, status |-> FALSE, hasPend |-> FALSE, pend |-> <<>>,
                volts |-> <<0>>, coh |-> TRUE, passed |-> {}]
        /\ lastv = 0
        /\ cur = [i \in 1..N |-> 0]
        /\ rows = <<>>
        /\ snaps = <<>>
        /\ k = 0
        /\ op = "init"
        /\ since = {}
        /\ may = LOSSY

Mark == IF FULL THEN k + 1 ELSE 1
Tail2(r) == IF FULL \/ Len(r) <= 2 THEN r ELSE SubSeq(r, Len(r) - 1, Len(r))
\* Iterations are only left out in a climb at other voltages than those of the last row
May == IF LOSSY /\ Phase(s) = "judge" /\ s.idx = 0 THEN (IF rows = <<>> THEN TRUE ELSE Last(rows).id # lastv') ELSE may
Record(g) ==
    LET now == Since(since, Phase(s), g)
        x == [id |-> lastv', v |-> <<lastv'>>, cur |-> cur', gs |-> now, f |-> Mark, g |-> g]
    IN /\ may' = May
       /\ k' = IF FULL THEN k + 1 ELSE 0
       /\ \/ /\ rows' = Tail2(AppendRow(rows, x, owner))
             /\ snaps' = IF FULL THEN Append(snaps, [x |-> x, idx |-> s'.idx, status |-> s'.status, pend |-> s'.hasPend])
                         ELSE <<>>
             /\ since' = {}
          \/ /\ May = TRUE
             /\ UNCHANGED <<rows, snaps>>
             /\ since' = now

Judge(r, name) ==
    /\ Phase(s) = "judge"
    /\ s' = Iterate(s, [r |-> r, v |-> <<>>])
    /\ lastv' = IF s.idx = 0 THEN s.volts[1] ELSE lastv
    /\ cur' = [cur EXCEPT ![s.idx + 1] = Mark]
    /\ Record(s.idx + 1)
    /\ op' = name
Compute ==
    /\ Phase(s) = "compute"
    /\ s' = Iterate(s, [r |-> "ok", v |-> <<0>>])
    /\ UNCHANGED <<lastv, cur>>
    /\ Record(0)
    /\ op' = "compute"
Apply ==
    /\ Phase(s) = "apply"
    /\ \E v \in VOLTS : /\ s' = Iterate(s, [r |-> "ok", v |-> <<v>>])
                        /\ op' = "apply_" \o ToString(v)
    /\ UNCHANGED <<lastv, cur>>
    /\ Record(0)
\* a failing judgement of the lowest group is not recorded, but the voltages are known to it
JudgeR ==
    /\ Phase(s) = "judge"
    /\ lastv' = IF s.idx = 0 THEN s.volts[1] ELSE lastv
    /\ UNCHANGED <<s, cur, rows, snaps, k, since, may>>
    /\ op' = "judge_raises"
DoRestart ==
    /\ \E v \in VOLTS : /\ s' = [Restart(s) EXCEPT !.volts = <<v>>]
                        /\ lastv' = v
                        /\ op' = "restart_" \o ToString(v)
    /\ UNCHANGED <<cur, rows, snaps, k, may>>
    /\ since' = {}
DoTargets ==
    /\ s' = ChangeTargets(s)
    /\ UNCHANGED <<lastv, cur, rows, snaps, k, may>>
    /\ since' = {}
    /\ op' = "targets"

Next == k < MAXN /\ (Judge("tuned", "tuned") \/ Judge("not", "not") \/ Compute \/ Apply \/ JudgeR \/ DoRestart \/ DoTargets)
Spec == Init /\ [][Next]_vars

\* rows differ from their neighbours
RowsDiffer == \A i \in 1..(Len(rows) - 1) : rows[i].id # rows[i + 1].id
\* what a reader of the stored states knows: the states, not the operations.  A state tells of the groups up to the
\* one judged last
Xs(sn) == [i \in DOMAIN sn |-> [sn[i].x EXCEPT !.gs = 1..JudgedAccordingTo(sn[i].idx, sn[i].status, sn[i].pend)]]
RebuildSame == FULL => rows = Rebuild(Xs(snaps), owner)
\* the state alone tells which group was judged last
StateTells == FULL => \A i \in DOMAIN snaps : snaps[i].x.g # 0 =>
                 snaps[i].x.g = JudgedAccordingTo(snaps[i].idx, snaps[i].status, snaps[i].pend)
Inv == RowsDiffer /\ RebuildSame /\ StateTells

\* every cell is the value of the latest judgement within the row
Latest(i, r) == LET js == {j \in DOMAIN snaps : snaps[j].x.g = i /\ snaps[j].x.f <= rows[r].f
                                              /\ \A m \in j..rows[r].f : snaps[m].x.id = rows[r].id}
                IN IF js = {} THEN MISS ELSE snaps[CHOOSE j \in js : \A m \in js : m <= j].x.cur[i]
CellsRight == FULL /\ ~LOSSY => \A r \in 2..Len(rows) : \A i \in 1..N : rows[r].c[i] = Latest(i, r)
\* earlier rows never change
RowsFinal == [][\A i \in 1..(Len(rows) - 1) : FULL => rows'[i] = rows[i]]_vars
==============================================================================
