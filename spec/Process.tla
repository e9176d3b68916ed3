--------------------------------- MODULE Process ---------------------------------
(* Processing of an opened match-up dataset D: sampling to independent errors, the   *)
(* change to normalised independent variables and back, space-filling simulation,    *)
(* and evaluation of the measurement equations.                                      *)
(*   D.Nm[mu]       number of match-ups                                              *)
(*   D.Im[mu]       <<sensor, sensor>>, numbered from 1                              *)
(*   D.blocks[b]    [mu, s, c, v, t, uR, uS, si, w, u]: series, sensor, variable     *)
(*                  number, values; error structure t; indices from 1                *)
(*   D.W[w]         [row, col, val], D.U[u] diagonal;  weights in units of 1/WS      *)
(*   D.ks[mu], D.kr[mu], D.t[p][mu], D.track[which][p][mu]                           *)
EXTENDS Integers, Sequences, FiniteSets

WS == 8
RngP(s) == {s[i] : i \in 1..Len(s)}
MinP(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxP(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SumP(_)
SumP(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumP(Tail(s))
RECURSIVE SumToP(_, _)
SumToP(s, k) == IF k = 0 THEN 0 ELSE SumToP(s, k - 1) + s[k]
Pick(s, rows) == [i \in 1..Len(rows) |-> s[rows[i]]]

RowCols(w, r) == [k \in 1..(w.row[r + 1] - w.row[r]) |-> w.col[w.row[r] + k] + 1]
RowVals(w, r) == [k \in 1..(w.row[r + 1] - w.row[r]) |-> w.val[w.row[r] + k]]
NRows(w) == Len(w.row) - 1
NCols(w) == 1 + MaxP(RngP(w.col))

(* ---- sampling -------------------------------------------------------------------- *)
WOf(D, mu) == {D.blocks[b].w : b \in {b \in 1..Len(D.blocks) : D.blocks[b].mu = mu /\ D.blocks[b].t \in {3, 4}}}
Disjoint(w, r, q) == RngP(RowCols(w, r)) \cap RngP(RowCols(w, q)) = {}
Free(D, mu, r, S) == \A w \in WOf(D, mu), q \in S : Disjoint(D.W[w], r, q)
Independent(D, mu, S) == \A r, q \in S : r # q => \A w \in WOf(D, mu) : Disjoint(D.W[w], r, q)
Maximal(D, mu, S) == \A r \in 1..D.Nm[mu] : r \in S \/ ~ Free(D, mu, r, S)
RECURSIVE Greedy(_, _, _, _)
Greedy(D, mu, r, S) == IF r > D.Nm[mu] THEN S
                       ELSE Greedy(D, mu, r + 1, IF Free(D, mu, r, S) THEN S \cup {r} ELSE S)
(* variance of a sampled value; of a structured variable the mean over its scan lines; *)
(* in units of 1/VS                                                                    *)
VS == 60
Variance(D, b, r) ==
    LET B == D.blocks[b]
    IN IF B.t \in {1, 2} THEN VS * B.uR[r] * B.uR[r]
       ELSE LET c == RowCols(D.W[B.w], r)
                lo == c[1]
                hi == c[Len(c)]
            IN (VS * SumP([j \in 1..(hi - lo + 1) |-> D.U[B.u][lo + j - 1] * D.U[B.u][lo + j - 1]])) \div (hi - lo + 1)

(* ---- normalised independent variables ----------------------------------------------- *)
NormLen(D, b) == IF D.blocks[b].t \in {3, 4} THEN Len(D.U[D.blocks[b].u]) ELSE Len(D.blocks[b].v)
NSys(D) == MaxP({0} \cup {D.blocks[b].si : b \in {b \in 1..Len(D.blocks) : D.blocks[b].t \in {2, 4}}})
NormBounds(D) == [i \in 1..(Len(D.blocks) + 1) |->
                     SumToP([b \in 1..Len(D.blocks) |-> NormLen(D, b)], i - 1) + (IF i = Len(D.blocks) + 1 THEN NSys(D) ELSE 0)]
(* x: the normalised values of a structured block whose lines y = u x give the values  *)
(* v through its weights. A row with lines not met before settles those, all alike;    *)
(* scale sc                                                                            *)
NewCols(w, r) == RngP(RowCols(w, r)) \ UNION {RngP(RowCols(w, q)) : q \in 1..(r - 1)}
Lines(u, x) == [j \in 1..Len(x) |-> u[j] * x[j]]
Apply(w, r, y) == LET c == RowCols(w, r) IN SumP([k \in 1..Len(c) |-> RowVals(w, r)[k] * y[c[k]]])
Settled(w, u, v, x, sc) ==
    LET y == Lines(u, x)
    IN \A r \in 1..NRows(w) : LET n == NewCols(w, r)
                              IN n # {} => /\ Apply(w, r, y) = WS * sc * v[r]
                                           /\ \A i, j \in n : y[i] = y[j]
(* the machine that settles them, for kernels of equal weights whose later rows bring   *)
(* one new line each: y = n X - (the others)                                            *)
RECURSIVE Settle(_, _, _, _)
Settle(w, v, r, y) ==
    IF r > NRows(w) THEN y
    ELSE LET c == RowCols(w, r)
             n == NewCols(w, r)
             old == {k \in 1..Len(c) : c[k] \notin n}
             new == IF old = {} THEN v[r] ELSE Len(c) * v[r] - SumP([k \in 1..Len(c) |-> IF c[k] \in n THEN 0 ELSE y[c[k]]])
         IN Settle(w, v, r + 1, [j \in DOMAIN y |-> IF j \in n THEN new ELSE y[j]])

(* the way back, from any normalised values x (per block) and systematic values s        *)
(* result in units of 1/WS                                                               *)
Back(D, b, x, s) ==
    LET B == D.blocks[b]
    IN CASE B.t = 1 -> [r \in 1..Len(B.v) |-> WS * x[r] * B.uR[r]]
         [] B.t = 2 -> [r \in 1..Len(B.v) |-> WS * (x[r] * B.uR[r] + s[B.si] * B.uS[r])]
         [] B.t = 3 -> [r \in 1..Len(B.v) |-> Apply(D.W[B.w], r, Lines(D.U[B.u], x))]
         [] B.t = 4 -> [r \in 1..Len(B.v) |-> Apply(D.W[B.w], r, [j \in 1..Len(x) |-> D.U[B.u][j] * x[j] + s[B.si] * B.uS[1]])]

(* ---- measurement equations -------------------------------------------------------------- *)
(* Each sensor s has a function of its variables x, its parameters a, constants c, scan       *)
(* indices and time (see the driver):                                                        *)
(*   g_s (sum_j j x_j + sum_j a_j x_((j-1)%m+1) + sum_j j (last digits of c_j) + xt + 2 at + 3 (t%10))         *)
(* and an adjustment y -> h_s y + 1.                                                         *)
BlockOf(D, mu, s, c) == CHOOSE b \in 1..Len(D.blocks) : D.blocks[b].mu = mu /\ D.blocks[b].s = s /\ D.blocks[b].c = c
NCov(D, s) == D.ms[s]
Digits3(k) == IF k > 0 - 1000 /\ k < 1000 THEN k ELSE k % 1000                          \* a constant counts by its last digits
X(D, mu, s, r) == [j \in 1..NCov(D, s) |-> D.blocks[BlockOf(D, mu, s, j)].v[r]]
Opt(q) == IF q >= 0 THEN q ELSE 0                                              \* absent: -1
Measure(D, A, mu, p, r) ==
    LET s == D.Im[mu][p]
        x == X(D, mu, s, r)
        a == A[s]
        m == Len(x)
    IN D.g[s] * (SumP([j \in 1..m |-> j * x[j]]) + SumP([j \in 1..Len(a) |-> a[j] * x[((j - 1) % m) + 1]]) +
                 SumP([j \in 1..Len(D.consts[s]) |-> j * Digits3(D.consts[s][j])]) + Opt(D.track[2][p][mu][r]) + 2 * Opt(D.track[1][p][mu][r]) +
                 3 * (D.t[p][mu][r] % 10))
(* derivatives by the variables, then by the parameters                                     *)
Deriv(D, A, mu, p, r) ==
    LET s == D.Im[mu][p]
        x == X(D, mu, s, r)
        a == A[s]
        m == Len(x)
    IN [j \in 1..m |-> D.g[s] * (j + SumP([i \in 1..Len(a) |-> IF ((i - 1) % m) + 1 = j THEN a[i] ELSE 0]))] \o
       [i \in 1..Len(a) |-> D.g[s] * x[((i - 1) % m) + 1]]
Adjusted(D, A, mu, p, r) == D.h[D.Im[mu][p]] * Measure(D, A, mu, p, r) + 1
KOf(D, A, mu, r) == Adjusted(D, A, mu, 2, r) - Adjusted(D, A, mu, 1, r)
(* variance of a measurement from the covariance V of the parameters of its sensor          *)
MeasureVar(D, A, V, mu, p, r) ==
    LET s == D.Im[mu][p]
        m == NCov(D, s)
        d == Deriv(D, A, mu, p, r)
        n == Len(A[s])
    IN SumP([i \in 1..n |-> SumP([j \in 1..n |-> d[m + i] * V[s][i][j] * d[m + j]])])
==================================================================================
