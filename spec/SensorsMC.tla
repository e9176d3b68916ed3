--------------------------------- MODULE SensorsMC ---------------------------------
(* The derivatives of Sensors are those of its measurement equation: the equation is     *)
(* evaluated on dual numbers v + e eps (eps^2 = 0) over fractions, seeded with each      *)
(* variable and parameter in turn.                                                       *)
EXTENDS Sensors, TLC, Json
(* cfg files have no negative numbers: those of Counts, Diffs and Bs are shifted by Off *)
CONSTANTS Off, Counts, Diffs, Rads, Ts, Bs
Names == {"AVHRR_11um_3", "AVHRR_11um_4_rescaled", "AVHRR_37um_2", "AVHRR_37um_3", "HIRS__Ch05_3"}

RAdd(p, q) == <<p[1] * q[2] + q[1] * p[2], p[2] * q[2]>>
RMul(p, q) == <<p[1] * q[1], p[2] * q[2]>>
RNeg(p) == <<0 - p[1], p[2]>>
REq(p, q) == p[1] * q[2] = q[1] * p[2]
Dual(v, e) == [v |-> <<v, 1>>, e |-> <<e, 1>>]
Add(p, q) == [v |-> RAdd(p.v, q.v), e |-> RAdd(p.e, q.e)]
Neg(p) == [v |-> RNeg(p.v), e |-> RNeg(p.e)]
Mul(p, q) == [v |-> RMul(p.v, q.v), e |-> RAdd(RMul(p.v, q.e), RMul(p.e, q.v))]
Inv(p) == LET i == <<p.v[2], p.v[1]>> IN [v |-> i, e |-> RNeg(RMul(p.e, RMul(i, i)))]

L(n, x, b) == LET sub(p, q) == Add(p, Neg(q))
                  gain == Mul(Mul(x.r, sub(x.cs, x.ce)), Inv(sub(x.cs, x.ci)))
                  quad == Mul(sub(x.ci, x.ce), sub(x.cs, x.ce))
                  l2 == Add(b[1], Mul(b[2], gain))
                  l3 == IF Quad(n) THEN Add(l2, Mul(b[3], quad)) ELSE l2
                  l4 == IF Timed(n) THEN Add(l3, Mul(b[Len(b)], x.t)) ELSE l3
              IN IF IsHIRS(n) THEN sub(l4, Mul(Dual(16, 0), x.s)) ELSE l4
Fields == {"cs", "ci", "ce", "r", "t", "s"}
Seeded(n, x, b, f) == L(n, [g \in Fields |-> Dual(x[g], IF g = f THEN 1 ELSE 0)], [i \in 1..Len(b) |-> Dual(b[i], 0)])
SeededB(n, x, b, j) == L(n, [g \in Fields |-> Dual(x[g], 0)], [i \in 1..Len(b) |-> Dual(b[i], IF i = j THEN 16 ELSE 0)])

VARIABLES n, x, b
vars == <<n, x, b>>
Init == /\ n \in Names
        /\ x \in {[cs |-> c + d - 2 * Off, ci |-> c - Off, ce |-> e - Off, r |-> r, t |-> t, s |-> 1] : c \in Counts, d \in Diffs, e \in Counts, r \in Rads, t \in Ts}
        /\ b \in [1..NPars(n) -> {v - Off : v \in Bs}]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

d2 == D(x) * D(x)
ValueOk == LET l == Seeded(n, x, b, "t").v IN l[1] * D(x) = Meas(n, x, b) * l[2]
CountsOk == \A k \in 1..3 : REq(RMul(Seeded(n, x, b, <<"cs", "ci", "ce">>[k]).e, <<d2, 1>>), <<DCounts(n, x, b)[k], 1>>)
RadOk == REq(RMul(Seeded(n, x, b, "r").e, <<d2, 1>>), <<DRad(n, x, b), 1>>)
TimeOk == REq(Seeded(n, x, b, "t").e, <<B4(n, b), 1>>)
ParsOk == \A j \in 1..Len(b) : REq(RMul(SeededB(n, x, b, j).e, <<d2, 1>>), <<16 * DPars(n, x)[j], 1>>)
Emit == (x.cs + 3 * x.ce + 5 * x.r + 7 * b[2] + b[1]) % 41 = 0 => PrintT("@@" \o ToJson([x |-> x, b |-> b]))
====================================================================================
