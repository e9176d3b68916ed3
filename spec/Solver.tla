--------------------------------- MODULE Solver ---------------------------------
(* The errors-in-variables problem that the Gauss-Newton solver works on, for an      *)
(* opened dataset D (see Process.tla) with in addition                               *)
(*   D.ref[s]     sensor s measures directly: its measurand is its only variable     *)
(*   D.q[s]       its adjustment is y -> h y + q y^2 + 1                             *)
(*   D.apos[s]    positions of its parameters among all                              *)
(* A point or direction is [x, s, a]: normalised independent variables of each       *)
(* block, of each systematic effect, and the parameters.                             *)
(* Variables and measurands are in units of 1/WS; where q # 0 they are whole.         *)
EXTENDS Process

Para(D, s, a) == [j \in 1..Len(D.apos[s]) |-> a[D.apos[s][j]]]
Vars(D, P, mu, s, r) == [j \in 1..D.ms[s] |-> Back(D, BlockOf(D, mu, s, j), P.x[BlockOf(D, mu, s, j)], P.s)[r]]
Sens(D, s, x, a, c) ==                                                             \* g (..) for variables x in 1/WS, the rest c
    D.g[s] * (SumP([j \in 1..Len(x) |-> j * x[j]]) + SumP([j \in 1..Len(a) |-> a[j] * x[((j - 1) % Len(x)) + 1]]) + WS * c)
Rest(D, mu, p, r) == LET s == D.Im[mu][p] IN
    SumP([j \in 1..Len(D.consts[s]) |-> j * Digits3(D.consts[s][j])]) + Opt(D.track[2][p][mu][r]) + 2 * Opt(D.track[1][p][mu][r]) + 3 * (D.t[p][mu][r] % 10)
Meas(D, P, mu, p, r) ==
    LET s == D.Im[mu][p]
        x == Vars(D, P, mu, s, r)
    IN IF D.ref[s] THEN x[1] ELSE Sens(D, s, x, Para(D, s, P.a), Rest(D, mu, p, r))
Adj(D, s, y) == IF D.q[s] = 0 THEN D.h[s] * y + WS
                ELSE WS * (D.h[s] * (y \div WS) + D.q[s] * (y \div WS) * (y \div WS) + 1)
DAdj(D, s, y) == IF D.q[s] = 0 THEN D.h[s] ELSE D.h[s] + 2 * D.q[s] * (y \div WS)
KAt(D, P, mu, r) == Adj(D, D.Im[mu][2], Meas(D, P, mu, 2, r)) - Adj(D, D.Im[mu][1], Meas(D, P, mu, 1, r))

(* residuals: variables and systematic effects less their initial values, adjustments   *)
(* less the measured ones in units of their uncertainty (units 1/sc; Kr divides sc)       *)
FVar(P, V) == [x |-> [b \in 1..Len(P.x) |-> [i \in 1..Len(P.x[b]) |-> P.x[b][i] - V.x[b][i]]],
               s |-> [i \in 1..Len(P.s) |-> P.s[i] - V.s[i]]]
FK(D, P, ks, sc, mu, r) == (KAt(D, P, mu, r) * (sc \div D.kr[mu][r])) \div WS - sc * ks[mu][r]

(* derivatives of the measurand by variable c and parameter i of its sensor               *)
DX(D, P, s, c) == IF D.ref[s] THEN 1
                  ELSE LET a == Para(D, s, P.a)
                       IN D.g[s] * (c + SumP([i \in 1..Len(a) |-> IF ((i - 1) % D.ms[s]) + 1 = c THEN a[i] ELSE 0]))
DA(D, P, mu, s, r, i) == IF D.ref[s] THEN 0 ELSE D.g[s] * Vars(D, P, mu, s, r)[((i - 1) % D.ms[s]) + 1]     \* 1/WS
Sgn(p) == IF p = 1 THEN -1 ELSE 1
(* the Jacobian on a direction d (parameters already preconditioned)                      *)
JK(D, P, d, sc, mu, r) ==
    LET part(p) == LET s == D.Im[mu][p]
                       dx == Vars(D, d, mu, s, r)
                       da == Para(D, s, d.a)
                   IN Sgn(p) * DAdj(D, s, Meas(D, P, mu, p, r)) *
                      (SumP([c \in 1..D.ms[s] |-> DX(D, P, s, c) * dx[c]]) + SumP([i \in 1..Len(da) |-> DA(D, P, mu, s, r, i) * da[i]]))
    IN ((part(1) + part(2)) * (sc \div D.kr[mu][r])) \div WS

(* its transpose on w = [x, s, k]                                                          *)
Coef(D, b, r, i) == LET B == D.blocks[b] IN                                              \* 1/WS
    IF B.t \in {1, 2} THEN (IF i = r THEN WS * B.uR[r] ELSE 0)
    ELSE LET c == RowCols(D.W[B.w], r)
         IN D.U[B.u][i] * SumP([k \in 1..Len(c) |-> IF c[k] = i THEN RowVals(D.W[B.w], r)[k] ELSE 0])
CoefS(D, b, r, j) == LET B == D.blocks[b] IN
    IF B.t \notin {2, 4} \/ B.si # j THEN 0
    ELSE IF B.t = 2 THEN WS * B.uS[r] ELSE SumP(RowVals(D.W[B.w], r)) * B.uS[1]
SideOf(D, b) == IF D.Im[D.blocks[b].mu][1] = D.blocks[b].s THEN 1 ELSE 2
Pull(D, P, w, sc, mu, p, r) ==                                                            \* weight of match-up r, sensor p
    Sgn(p) * DAdj(D, D.Im[mu][p], Meas(D, P, mu, p, r)) * w.k[mu][r] * (sc \div D.kr[mu][r])
(* pulls of a series once, as a table                                                     *)
Pulls(D, P, w, sc) == [mu \in 1..Len(D.Nm) |-> [p \in 1..2 |-> [r \in 1..D.Nm[mu] |-> Pull(D, P, w, sc, mu, p, r)]]]
JTx(D, P, w, sc, pulls) ==
    [b \in 1..Len(D.blocks) |-> LET B == D.blocks[b]
                                    q == pulls[B.mu][SideOf(D, b)]
                                    dx == DX(D, P, B.s, B.c)
                                IN [i \in 1..Len(P.x[b]) |->
                                     sc * w.x[b][i] + (SumP([r \in 1..D.Nm[B.mu] |-> q[r] * dx * Coef(D, b, r, i)]) \div WS)]]
JTs(D, P, w, sc, pulls) ==
    [j \in 1..Len(P.s) |-> sc * w.s[j] +
        (SumP([b \in 1..Len(D.blocks) |-> LET B == D.blocks[b] IN
            IF B.t \in {2, 4} /\ B.si = j
            THEN SumP([r \in 1..D.Nm[B.mu] |-> pulls[B.mu][SideOf(D, b)][r] * DX(D, P, B.s, B.c) * CoefS(D, b, r, j)])
            ELSE 0]) \div WS)]
JTa0(D, P, w, sc, pulls) ==
    [j \in 1..Len(P.a) |->
        SumP([mu \in 1..Len(D.Nm) |-> SumP([p \in 1..2 |->
            LET s == D.Im[mu][p] IN
            IF ~ D.ref[s] /\ \E i \in 1..Len(D.apos[s]) : D.apos[s][i] = j
            THEN LET i == CHOOSE i \in 1..Len(D.apos[s]) : D.apos[s][i] = j
                 IN SumP([r \in 1..D.Nm[mu] |-> pulls[mu][p][r] * DA(D, P, mu, s, r, i)])
            ELSE 0])]) \div WS]
(* preconditioner S on the parameters                                                      *)
MulS(S, a) == [i \in 1..Len(a) |-> SumP([j \in 1..Len(a) |-> S[i][j] * a[j]])]
MulT(S, a) == [i \in 1..Len(a) |-> SumP([j \in 1..Len(a) |-> S[j][i] * a[j]])]
JTa(D, P, w, sc, S, pulls) == MulT(S, JTa0(D, P, w, sc, pulls))

(* ---- iteration ---------------------------------------------------------------------- *)
(* One iteration is [cost, nd, nx, ng]: cost of the residuals after the step, largest       *)
(* entry of the step, of the new state and of the gradient. With tolerance 1/64:            *)
Conv(prev, it) == /\ prev - it.cost >= 0
                  /\ 64 * (prev - it.cost) < 1 + it.cost
                  /\ 8 * it.nd < 1 + it.nx
                  /\ 4 * it.ng <= 1 + it.cost
RECURSIVE Stops(_, _, _, _)                                                              \* number of the last iteration
Stops(cost0, its, k, max) ==
    IF k = max \/ Conv(IF k = 1 THEN cost0 ELSE its[k - 1].cost, its[k]) THEN k ELSE Stops(cost0, its, k + 1, max)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Largest(v) == MaxP({0} \cup {Abs(v[i]) : i \in 1..Len(v)})
Cost(v) == SumP([i \in 1..Len(v) |-> v[i] * v[i]])
==================================================================================
