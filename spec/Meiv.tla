---------------------------------- MODULE Meiv ----------------------------------
(* The data structures of the measurement-errors-in-variables software (Fortran):  *)
(* what reading a match-up data set D of sensors i, j with the sampling step s must *)
(* store, and which data sets are refused. All numbers are integers of one grid;    *)
(* squares are on the grid of squares.                                              *)
EXTENDS Integers, Sequences, FiniteSets

HUGE == 2000000005      \* infinite, or too large to be squared

(* --- sampling: rows 1, 1+s, 1+2s, ... of M ------------------------------------- *)
SampleCount(M, s) == (M + s - 1) \div s
Row(k, s) == 1 + (k - 1) * s

(* --- sensors: parameters in one array ------------------------------------------ *)
RECURSIVE Upto(_, _)
Upto(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + Upto(f, k - 1)

(* --- columns -------------------------------------------------------------------- *)
(* job: common, sel (sensor -> [on, cols]); D: see the recorder                      *)
ColOf(job, sensor, l) == IF job.sel[sensor].on THEN job.sel[sensor].cols[l] ELSE l
TypeOf(job, D, p, c) == IF c > D.m[p] THEN 0
                        ELSE LET t == IF D.hasut[p] THEN D.ut[p][c] ELSE 1 IN
                             CASE t = 2 /\ ~ job.common -> 1
                               [] t = 4 -> 3
                               [] OTHER -> t
UrOf(D, p, r, c) == IF D.hasur[p] THEN D.Ur[p][r][c] ELSE 0
UsOf(D, p, r, c) == IF D.hasus[p] THEN D.Us[p][r][c] ELSE 0
Telemetry(D, p, r, c) == IF c > D.m[p] THEN UsOf(D, p, r, c - D.m[p]) ELSE D.X[p][r][c]

(* --- refusals ------------------------------------------------------------------- *)
Wrong(v, NaN) == v = NaN \/ v = HUGE
AnyWrong(rows, NaN) == \E r \in 1..Len(rows) : \E c \in 1..Len(rows[r]) : Wrong(rows[r][c], NaN)
SeqWrong(x, NaN) == \E k \in 1..Len(x) : Wrong(x[k], NaN)
BadValues(D, NaN) ==
  \/ \E p \in 1..2 : \/ AnyWrong(D.X[p], NaN)
                     \/ D.hasur[p] /\ AnyWrong(D.Ur[p], NaN)
                     \/ D.hasus[p] /\ AnyWrong(D.Us[p], NaN)
                     \/ SeqWrong(D.t[p], NaN)
  \/ D.hask /\ SeqWrong(D.K, NaN)
  \/ D.haskr /\ (SeqWrong(D.Kr, NaN) \/ \E k \in 1..D.M : D.Kr[k] = 0)
  \/ D.hasks /\ SeqWrong(D.Ks, NaN)
  \/ \E u \in 1..Len(D.U) : SeqWrong(D.U[u], NaN) \/ \E k \in 1..Len(D.U[u]) : D.U[u][k] = 0
  \/ \E w \in 1..Len(D.W) : SeqWrong(D.W[w].val, NaN) \/ \E k \in 1..Len(D.W[w].val) : D.W[w].val[k] <= 0
BadFormat(D) == \/ D.lacks # <<>>                                       \* a variable that has no default
                \/ \E w \in 1..Len(D.W) : D.W[w].base # D.W[1].base     \* row pointers of mixed formats
BadSize(job, D, ri, rj) == LET lim(p) == IF job.common THEN D.m[p] ELSE 2 * D.m[p]
                           IN ri > lim(1) \/ rj > lim(2)
BadPair(i, j, pairs) == ~ (0 < i /\ i < j) \/ <<i, j>> \in pairs

(* --- weight matrices ------------------------------------------------------------- *)
(* a stored matrix W = [row, col, val] (base 0): the value in row r, column c          *)
Stored(W, r, c) ==
  LET S == {k \in (W.row[r] + 1)..W.row[r + 1] : W.col[k] + 1 = c}
  IN IF S = {} THEN 0 ELSE W.val[CHOOSE k \in S : TRUE]
Columns(W) == LET S == {W.col[k] : k \in 1..Len(W.col)} IN 1 + (CHOOSE x \in S : \A y \in S : y <= x)
(* a banded matrix B = [ia, ja, a]: row k is a[ia[k]..ia[k+1]-1], from column ja[k]      *)
Banded(B, k, c) == LET at == B.ia[k] + (c - B.ja[k])
                   IN IF B.ia[k + 1] > B.ia[k] /\ c >= B.ja[k] /\ at < B.ia[k + 1] THEN B.a[at] ELSE 0
SameMatrix(B, m, n, W, s) ==
  /\ m = SampleCount(Len(W.row) - 1, s) /\ n = Columns(W)
  /\ Len(B.ia) = m + 1 /\ Len(B.ja) = m /\ B.ia[1] = 1 /\ Len(B.a) = B.ia[m + 1] - 1
  /\ \A k \in 1..m : \A c \in 1..n : Banded(B, k, c) = Stored(W, Row(k, s), c)
  /\ \A k \in 1..m : B.ia[k + 1] > B.ia[k] => 1 <= B.ja[k] /\ B.ja[k] + (B.ia[k + 1] - B.ia[k]) - 1 <= n
==================================================================================
