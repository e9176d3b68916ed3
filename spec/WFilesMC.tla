-------------------------------- MODULE WFilesMC --------------------------------
(* Building the stored arrays matrix by matrix and reading matrices back by        *)
(* running totals; building a rolling average row by row.                          *)
EXTENDS WFiles, TLC, Json
CONSTANTS Rows, MaxW, MaxU, MaxT, MaxPos, MaxK

VARIABLES W, U, file, t, k, acc, phase
vars == <<W, U, file, t, k, acc, phase>>

(* all CSR matrices of Rows rows with one or two elements per row *)
CSR == {[row |-> r, col |-> c, val |-> [i \in 1..Len(c) |-> i]] :
          r \in {[i \in 1..(Rows + 1) |-> SumTo(n, i - 1)] : n \in [1..Rows -> 1..2]},
          c \in UNION {[1..n -> 0..1] : n \in Rows..(2 * Rows)}}
Good == {w \in CSR : Len(w.col) = w.row[Rows + 1]}
Empty == [nnz |-> <<>>, row |-> <<>>, col |-> <<>>, val |-> <<>>, ucount |-> <<>>, uval |-> <<>>]

Init == /\ W = <<>> /\ U = <<>> /\ file = Empty
        /\ t = <<>> /\ k = 0 /\ acc = <<>> /\ phase = "grow"
AddW == /\ phase = "grow" /\ Len(W) < MaxW /\ U = <<>> /\ t = <<>>
        /\ \E w \in Good :
             /\ W' = Append(W, w)
             /\ file' = [file EXCEPT !.nnz = Append(@, Len(w.val)), !.row = Append(@, w.row),
                                     !.col = @ \o w.col, !.val = @ \o w.val]
        /\ UNCHANGED <<U, t, k, acc, phase>>
AddU == /\ phase = "grow" /\ W # <<>> /\ Len(U) < MaxU
        /\ \E n \in 1..2 : LET u == [i \in 1..n |-> 10 * Len(U) + i]
                           IN U' = Append(U, u) /\ file' = [file EXCEPT !.ucount = Append(@, n), !.uval = @ \o u]
        /\ UNCHANGED <<W, t, k, acc, phase>>
(* a rolling average: the times of match-ups, one by one *)
AddT == /\ phase = "grow" /\ W = <<>> /\ Len(t) < MaxT
        /\ \E x \in 0..MaxPos : t' = Append(t, 10 * x)
        /\ UNCHANGED <<W, U, file, k, acc, phase>>
Kernel == /\ phase = "grow" /\ t # <<>> /\ \E n \in 1..MaxK : k' = n
          /\ phase' = "average" /\ acc' = [l \in {} |-> {}]
          /\ UNCHANGED <<W, U, file, t>>
(* one match-up: its scan lines, counted from the first match-up, get its row *)
Average == /\ phase = "average" /\ LET i == 1 + Cardinality(UNION {acc[l] : l \in DOMAIN acc})
                                   IN /\ i <= Len(t)
                                      /\ LET p == (t[i] - t[1]) \div 10
                                             D == DOMAIN acc \cup p..(p + k - 1)
                                         IN acc' = [l \in D |-> (IF l \in DOMAIN acc THEN acc[l] ELSE {}) \cup
                                                                  (IF l >= p /\ l < p + k THEN {i} ELSE {})]
           /\ UNCHANGED <<W, U, file, t, k, phase>>
Next == AddW \/ AddU \/ AddT \/ Kernel \/ Average
Spec == Init /\ [][Next]_vars

SerialAgree == file = Serial(W, U)
RoundTrip == /\ \A i \in 1..Len(W) : ReadW(file, i) = W[i]
             /\ \A i \in 1..Len(U) : ReadU(file, i) = U[i]
DoneAvg == phase = "average" /\ Cardinality(UNION {acc[l] : l \in DOMAIN acc}) = Len(t)
Ones(n) == [i \in 1..n |-> 1]
RollAgree == DoneAvg =>
    LET R == RollW(t, Ones(k))
        ls == AscW(DOMAIN acc)
    IN /\ Len(R) = Len(t)
       /\ \A i \in 1..Len(t) : Len(R[i]) = Len(ls)
       /\ \A i \in 1..Len(t), j \in 1..Len(ls) : (R[i][j] = 1) <=> (i \in acc[ls[j]])
(* overlap of two averages = overlap of their windows; every column is used *)
Overlap == DoneAvg =>
    LET R == RollW(t, Ones(k))
        d(i, j) == IF t[i] > t[j] THEN (t[i] - t[j]) \div 10 ELSE (t[j] - t[i]) \div 10
    IN /\ \A i, j \in 1..Len(t) : Cardinality({c \in 1..Len(R[1]) : R[i][c] = 1 /\ R[j][c] = 1}) = (IF d(i, j) >= k THEN 0 ELSE k - d(i, j))
       /\ \A c \in 1..Len(R[1]) : \E i \in 1..Len(t) : R[i][c] = 1
Emit == /\ (phase = "grow" /\ Len(U) >= 1 => PrintT("@@" \o ToJson([W |-> W, U |-> U])))
        /\ (DoneAvg => PrintT("@@" \o ToJson([t |-> t, k |-> k])))
================================================================================
