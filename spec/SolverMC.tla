-------------------------------- MODULE SolverMC --------------------------------
(* 1. The transposed Jacobian is the adjoint of the Jacobian, and the Jacobian the       *)
(*    derivative of the residuals, at many points of problems of every error structure. *)
(* 2. The iteration loop as a machine: it returns at the first iteration that meets the *)
(*    four conditions, or at the limit.                                                  *)
EXTENDS Solver, TLC, Json
CONSTANTS Seeds, MaxIter, Costs, Steps, Grads

Z == [row |-> <<0, 2, 4>>, col |-> <<0, 1, 1, 2>>, val |-> <<4, 4, 4, 4>>]
Z2 == [row |-> <<0, 3, 6>>, col |-> <<1, 2, 3, 0, 1, 2>>, val |-> <<2, 4, 2, 2, 4, 2>>]
Blank(n) == [i \in 1..n |-> -1]
B(mu, s, c, t, si, w, n) == [mu |-> mu, s |-> s, c |-> c, v |-> [i \in 1..n |-> 0], t |-> t, uR |-> IF t < 3 THEN [i \in 1..n |-> i] ELSE <<>>,
                             uS |-> IF t = 2 THEN [i \in 1..n |-> 3] ELSE IF t = 4 THEN <<3>> ELSE <<>>, si |-> si, w |-> w, u |-> w]
Base(Im, ms, blocks, ref, apos, q) ==
    [Nm |-> [mu \in 1..Len(Im) |-> 2], Im |-> Im, ms |-> ms, blocks |-> blocks, W |-> <<Z, Z2>>, U |-> <<<<1, 2, 1>>, <<2, 1, 1, 2>>>>,
     kr |-> [mu \in 1..Len(Im) |-> <<1, 2>>], t |-> [p \in 1..2 |-> [mu \in 1..Len(Im) |-> <<p, 12 + mu>>]],
     track |-> [w \in 1..2 |-> [p \in 1..2 |-> [mu \in 1..Len(Im) |-> IF w = p THEN <<1, 5>> ELSE Blank(2)]]],
     ref |-> ref, apos |-> apos, q |-> q, g |-> [s \in 1..Len(ms) |-> s], h |-> [s \in 1..Len(ms) |-> IF s = 2 THEN -1 ELSE 2],
     consts |-> [s \in 1..Len(ms) |-> IF s = 2 THEN <<1, 2>> ELSE <<>>], na |-> SumP([s \in 1..Len(ms) |-> Len(apos[s])])]
Probs == <<
  Base(<<<<1, 2>>>>, <<1, 2>>, <<B(1, 1, 1, 1, 0, 0, 2), B(1, 2, 1, 2, 1, 0, 2), B(1, 2, 2, 3, 0, 1, 2)>>, <<TRUE, FALSE>>, <<<<>>, <<1, 2, 3>>>>, <<0, 0>>),
  Base(<<<<2, 1>>>>, <<1, 2>>, <<B(1, 2, 1, 4, 1, 2, 2), B(1, 1, 1, 1, 0, 0, 2), B(1, 2, 2, 4, 2, 1, 2)>>, <<TRUE, FALSE>>, <<<<>>, <<1, 2>>>>, <<0, 0>>),
  Base(<<<<1, 2>>, <<2, 3>>>>, <<1, 1, 2>>, <<B(1, 1, 1, 2, 1, 0, 2), B(1, 2, 1, 1, 0, 0, 2), B(2, 2, 1, 1, 0, 0, 2), B(2, 3, 1, 2, 2, 0, 2), B(2, 3, 2, 1, 0, 0, 2)>>,
       <<FALSE, FALSE, FALSE>>, <<<<3>>, <<1, 4>>, <<2>>>>, <<1, 0, 1>>),
  Base(<<<<1, 2>>, <<3, 1>>>>, <<2, 1, 1>>, <<B(1, 1, 1, 4, 1, 1, 2), B(1, 2, 1, 1, 0, 0, 2), B(2, 3, 1, 2, 2, 0, 2), B(2, 1, 1, 4, 1, 2, 2), B(1, 1, 2, 3, 0, 1, 2), B(2, 1, 2, 3, 0, 1, 2)>>,
       <<FALSE, TRUE, FALSE>>, <<<<1, 4>>, <<>>, <<2, 3>>>>, <<0, 0, 0>>) >>
S4 == <<<<2, 0, 0, 0>>, <<1, 1, 0, 0>>, <<-1, 0, 2, 0>>, <<0, 3, 1, 1>>>>
Rnd(z, i) == ((z * (7 * i + 3) + i * i + z * z) % 7) - 3
Len1(D, b) == IF D.blocks[b].t \in {3, 4} THEN Len(D.U[D.blocks[b].u]) ELSE Len(D.blocks[b].v)
Vec(D, z) == [x |-> [b \in 1..Len(D.blocks) |-> [i \in 1..Len1(D, b) |-> Rnd(z, 5 * b + i)]], s |-> [i \in 1..NSys(D) |-> Rnd(z, 90 + i)],
              a |-> [i \in 1..D.na |-> Rnd(z, 60 + i)], k |-> [mu \in 1..Len(D.Nm) |-> [r \in 1..D.Nm[mu] |-> Rnd(z, 40 + 3 * mu + r)]]]
Plus(D, P, d, f) == [x |-> [b \in DOMAIN P.x |-> [i \in DOMAIN P.x[b] |-> P.x[b][i] + f * d.x[b][i]]], s |-> [i \in DOMAIN P.s |-> P.s[i] + f * d.s[i]],
                     a |-> [i \in DOMAIN P.a |-> P.a[i] + f * d.a[i]]]
DotP(u, w) == SumP([i \in 1..Len(u) |-> u[i] * w[i]])
SC == 64
Adjoint(D, P, d, w) ==
    LET Sm == [i \in 1..D.na |-> [j \in 1..D.na |-> S4[i][j]]]
        pd == [d EXCEPT !.a = MulS(Sm, d.a)]
        pulls == Pulls(D, P, w, SC)
        left == SC * (SumP([b \in DOMAIN d.x |-> DotP(d.x[b], w.x[b])]) + DotP(d.s, w.s)) +
                SumP([mu \in 1..Len(D.Nm) |-> SumP([r \in 1..D.Nm[mu] |-> JK(D, P, pd, SC, mu, r) * w.k[mu][r]])])
        tx == JTx(D, P, w, SC, pulls)
    IN left = SumP([b \in DOMAIN d.x |-> DotP(d.x[b], tx[b])]) + DotP(d.s, JTs(D, P, w, SC, pulls)) + DotP(d.a, JTa(D, P, w, SC, Sm, pulls))
(* with an adjustment of degree one the adjustments are of degree two in all variables     *)
Difference(D, P, d) == (\A s \in DOMAIN D.q : D.q[s] = 0) =>
    LET zero == [mu \in 1..Len(D.Nm) |-> [r \in 1..D.Nm[mu] |-> 0]]
    IN \A mu \in 1..Len(D.Nm) : \A r \in 1..D.Nm[mu] :
          FK(D, Plus(D, P, d, 1), zero, SC, mu, r) - FK(D, Plus(D, P, d, -1), zero, SC, mu, r) = 2 * JK(D, P, d, SC, mu, r)
(* otherwise: fourth order differences are exact for degree four                            *)
Difference4(D, P, d) ==
    LET zero == [mu \in 1..Len(D.Nm) |-> [r \in 1..D.Nm[mu] |-> 0]]
    IN \A mu \in 1..Len(D.Nm) : \A r \in 1..D.Nm[mu] :
          8 * (FK(D, Plus(D, P, d, 1), zero, SC, mu, r) - FK(D, Plus(D, P, d, -1), zero, SC, mu, r))
          - (FK(D, Plus(D, P, d, 2), zero, SC, mu, r) - FK(D, Plus(D, P, d, -2), zero, SC, mu, r)) = 12 * JK(D, P, d, SC, mu, r)

VARIABLES mode, prob, z, k, cost0, hist, state
vars == <<mode, prob, z, k, cost0, hist, state>>
Init == \/ /\ mode = "algebra" /\ prob \in 1..Len(Probs) /\ z \in Seeds \X Seeds \X Seeds
           /\ k = 0 /\ cost0 = 0 /\ hist = <<>> /\ state = "at"
        \/ /\ mode = "loop" /\ cost0 \in Costs /\ k = 1 /\ hist = <<>> /\ state = "run" /\ prob = 0 /\ z = <<0, 0, 0>>
Prev == IF hist = <<>> THEN cost0 ELSE hist[Len(hist)].cost
Iterate == /\ mode = "loop" /\ state = "run" /\ k <= MaxIter
           /\ \E c \in Costs, d \in Steps, g \in Grads :
                LET it == [cost |-> c, nd |-> d, nx |-> 15, ng |-> g] IN
                /\ hist' = Append(hist, it)
                /\ state' = IF Conv(Prev, it) \/ k = MaxIter THEN "returned" ELSE "run"
           /\ k' = k + 1 /\ UNCHANGED <<mode, prob, z, cost0>>
Next == Iterate
Spec == Init /\ [][Next]_vars

AlgebraOk == mode = "algebra" =>
    LET D == Probs[prob]
        P == Vec(D, z[1])
        d == Vec(D, z[2])
        w == Vec(D, z[3])
    IN Adjoint(D, P, d, w) /\ (z[3] = 0 => Difference(D, P, d) /\ Difference4(D, P, d))
LoopOk == (mode = "loop" /\ state = "returned") =>
    /\ Stops(cost0, hist, 1, MaxIter) = Len(hist)
    /\ \A i \in 1..(Len(hist) - 1) : ~ Conv(IF i = 1 THEN cost0 ELSE hist[i - 1].cost, hist[i])
(* a return before the limit means a cost that did not rise in the last step               *)
NotRising == (mode = "loop" /\ state = "returned" /\ Len(hist) < MaxIter) =>
    LET n == Len(hist) IN hist[n].cost <= (IF n = 1 THEN cost0 ELSE hist[n - 1].cost)
Emit == (mode = "loop" /\ state = "returned") => PrintT("@@" \o ToJson([cost0 |-> cost0, its |-> hist]))
==================================================================================
