--------------------------------- MODULE WFiles ---------------------------------
(* Weight and uncertainty matrices in match-up files: a list of CSR matrices W    *)
(* ([row, col, val], row pointers from 0) and of diagonals U is stored as         *)
(* concatenated arrays with counts.                                               *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE CatW(_)
CatW(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatW(Tail(ss))
Serial(W, U) == [nnz |-> [i \in 1..Len(W) |-> Len(W[i].val)],
                 row |-> [i \in 1..Len(W) |-> W[i].row],
                 col |-> CatW([i \in 1..Len(W) |-> W[i].col]),
                 val |-> CatW([i \in 1..Len(W) |-> W[i].val]),
                 ucount |-> [i \in 1..Len(U) |-> Len(U[i])],
                 uval |-> CatW(U)]
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE SumTo(s, k - 1) + s[k]
ReadW(S, i) == LET a == SumTo(S.nnz, i - 1) + 1
                   b == SumTo(S.nnz, i)
               IN [row |-> S.row[i], col |-> SubSeq(S.col, a, b), val |-> SubSeq(S.val, a, b)]
ReadU(S, i) == SubSeq(S.uval, SumTo(S.ucount, i - 1) + 1, SumTo(S.ucount, i))

(* ---- the rolling average over scan lines --------------------------------------- *)
(* Times are given in tenths of the scan line interval; the first match-up is the   *)
(* reference. Row i of the weight matrix averages k consecutive scan lines.         *)
RoundTenths(x) == IF x >= 0 THEN (x + 5) \div 10 ELSE -((5 - x) \div 10)
LOCAL MinW(S) == CHOOSE x \in S : \A y \in S : x <= y
LOCAL MaxW(S) == CHOOSE x \in S : \A y \in S : y <= x
RelPos(t) == [i \in 1..Len(t) |-> RoundTenths(t[i] - t[1])]
AbsPos(t) == LET p == RelPos(t) IN [i \in 1..Len(t) |-> p[i] - MinW({p[j] : j \in 1..Len(t)})]
(* the scan lines that some average uses with a weight other than zero             *)
Used(t, w) == LET p == AbsPos(t) IN UNION {{p[i] + k - 1 : k \in {k \in 1..Len(w) : w[k] # 0}} : i \in 1..Len(t)}
RECURSIVE AscW(_)
AscW(S) == IF S = {} THEN <<>> ELSE LET x == MinW(S) IN <<x>> \o AscW(S \ {x})
RollW(t, w) == LET p == AbsPos(t)
                   c == AscW(Used(t, w))
               IN [i \in 1..Len(t) |-> [j \in 1..Len(c) |->
                      IF c[j] >= p[i] /\ c[j] < p[i] + Len(w) THEN w[c[j] - p[i] + 1] ELSE 0]]
(* uncertainty of a scan line: the greatest of those given for it                  *)
RollU(t, w, u) == LET p == AbsPos(t)
                      c == AscW(Used(t, w))
                  IN [j \in 1..Len(c) |-> MaxW({0} \cup {u[i][c[j] - p[i] + 1] :
                          i \in {i \in 1..Len(t) : c[j] >= p[i] /\ c[j] < p[i] + Len(w)}})]
================================================================================
