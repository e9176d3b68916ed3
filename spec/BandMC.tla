--------------------------------- MODULE BandMC ---------------------------------
(* The conversion of a stored weight matrix (compressed rows) into a banded one, by   *)
(* the two loops of the code, for every matrix of the bounds; it must hold the same    *)
(* values, whatever the order of the columns in a row, the number base and the step.   *)
EXTENDS Meiv, TLC, Json
CONSTANTS Rows, Cols, Steps
(* a row: a strictly ascending or descending sequence of columns                       *)
Mono(q) == \/ \A k \in 1..(Len(q) - 1) : q[k] < q[k + 1]
           \/ \A k \in 1..(Len(q) - 1) : q[k] > q[k + 1]
RowSet == {q \in UNION {[1..n -> 1..Cols] : n \in 0..Cols} : Mono(q)}
VARIABLES pc, rows, s, i, k, l, ib, jb, b
vars == <<pc, rows, s, i, k, l, ib, jb, b>>
Val(r, c) == 10 * r + c
Abs(x) == IF x < 0 THEN -x ELSE x
Width(q) == IF q = <<>> THEN 0 ELSE Abs(q[Len(q)] - q[1]) + 1
RowMin(q) == IF q[1] < q[Len(q)] THEN q[1] ELSE q[Len(q)]

Init == /\ rows \in [1..Rows -> RowSet] /\ \E r \in 1..Rows : rows[r] # <<>>
        /\ s \in Steps /\ pc = "fill" /\ i = 1 /\ k = 1 /\ l = 0
        /\ ib = <<1>> /\ jb = <<>> /\ b = <<>>
Fill == /\ pc = "fill" /\ i <= Rows
        /\ LET q == rows[i]
               band == [c \in 1..Width(q) |-> LET S == {n \in 1..Len(q) : q[n] - RowMin(q) + 1 = c}
                                              IN IF S = {} THEN 0 ELSE Val(i, q[CHOOSE n \in S : TRUE])]
           IN /\ b' = b \o band
              /\ jb' = Append(jb, IF q = <<>> THEN 0 ELSE RowMin(q))
              /\ k' = k + Width(q) /\ ib' = Append(ib, k + Width(q))
        /\ i' = i + s /\ l' = l + 1
        /\ UNCHANGED <<pc, rows, s>>
Done == pc = "fill" /\ i > Rows /\ pc' = "done" /\ UNCHANGED <<rows, s, i, k, l, ib, jb, b>>
Next == Fill \/ Done
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
RECURSIVE Ptr(_)
Ptr(n) == IF n = 0 THEN <<0>> ELSE LET p == Ptr(n - 1) IN Append(p, p[n] + Len(rows[n]))
AsStored == [row |-> Ptr(Rows), col |-> Cat([r \in 1..Rows |-> [n \in 1..Len(rows[r]) |-> rows[r][n] - 1]]),
             val |-> Cat([r \in 1..Rows |-> [n \in 1..Len(rows[r]) |-> Val(r, rows[r][n])]])]
Same == pc = "done" => SameMatrix([ia |-> ib, ja |-> jb, a |-> b], l, Columns(AsStored), AsStored, s)
Emit == pc = "done" => PrintT("@@" \o ToJson([kind |-> "band", W |-> AsStored, s |-> s]))
==================================================================================
