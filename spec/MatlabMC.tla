------------------------------ MODULE MatlabMC ------------------------------
(* All slices of short sequences and the layout of small arrays.              *)
EXTENDS Matlab
CONSTANTS LENGTH
VARIABLES n, a, b, c
vars == <<n, a, b, c>>

Bounds == (-LENGTH - 2)..(LENGTH + 2) \cup {None}
Init == n \in 0..LENGTH /\ a \in Bounds /\ b \in Bounds /\ c \in {-3, -2, -1, 1, 2, 3, None}
Spec == Init /\ [][UNCHANGED vars]_vars

SelectsTheSame ==
    LET m == MatRange(n, Translate(a, b, c))
        p == PySlice(n, a, b, c)
    IN /\ Within(n, a, b, c) => Same(m, p)
       /\ Same(m, p) \/ ~MatExists(n, m)

Matrices == UNION {[1..r -> [1..k -> 1..2]] : r \in 1..3, k \in 1..3}
ASSUME \A m \in Matrices : Transpose(Reshape(RowMajor(m), Len(m[1]), Len(m))) = m
==============================================================================
