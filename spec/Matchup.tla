-------------------------------- MODULE Matchup --------------------------------
(* A match-up dataset: a sequence F of files, one per match-up series, each     *)
(* pairing two sensors, and the one-dimensional block structure it is opened as.*)
(*                                                                              *)
(* A file is a record with at least                                             *)
(*   s   : <<name of sensor 1, name of sensor 2>>                               *)
(*   M   : number of match-ups                                                  *)
(*   m   : <<number of columns of sensor 1, number of columns of sensor 2>>     *)
(* The definitions here are declarative: what the blocks ARE. The machine in    *)
(* MatchupMC computes them the way a reader does, by loops and running totals,  *)
(* and TLC shows that the two agree.                                            *)
EXTENDS Integers, Sequences, FiniteSets

LOCAL MaxI(S) == CHOOSE x \in S : \A y \in S : y <= x

Sides == 1..2
Mus(F) == 1..Len(F)

(* ---- sensors, in order of first appearance ---------------------------------- *)
Appear(F, k) == F[((k - 1) \div 2) + 1].s[((k - 1) % 2) + 1]     \* k-th name read
NAppear(F) == 2 * Len(F)
FirstAppearances(F) == {k \in 1..NAppear(F) : \A j \in 1..(k-1) : Appear(F, j) # Appear(F, k)}
RECURSIVE SortedInts(_)
SortedInts(S) == IF S = {} THEN <<>>
                 ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y
                      IN <<x>> \o SortedInts(S \ {x})
Sensors(F) == LET ks == SortedInts(FirstAppearances(F))
              IN [i \in 1..Len(ks) |-> Appear(F, ks[i])]
SensorNo(F, name) == CHOOSE i \in 1..Len(Sensors(F)) : Sensors(F)[i] = name    \* from 1
(* the number of variables of a sensor is that of its first appearance *)
SensorM(F, i) == LET k == SortedInts(FirstAppearances(F))[i]
                 IN F[((k - 1) \div 2) + 1].m[((k - 1) % 2) + 1]
SensorMs(F) == [i \in 1..Len(Sensors(F)) |-> SensorM(F, i)]
Im(F) == [mu \in Mus(F) |-> [p \in Sides |-> SensorNo(F, F[mu].s[p]) - 1]]   \* from 0, as stored

(* ---- match-up numbers ------------------------------------------------------- *)
Nm(F) == [mu \in Mus(F) |-> F[mu].M]
RECURSIVE CumNm(_, _)
CumNm(F, k) == IF k = 0 THEN 0 ELSE CumNm(F, k - 1) + F[k].M
cNm(F) == [k \in 1..(Len(F) + 1) |-> CumNm(F, k - 1)]

(* ---- blocks: by variable number, then series, then side --------------------- *)
AllBlocks(F) == {<<c, mu, p>> \in (1..MaxI({SensorM(F, i) : i \in 1..Len(Sensors(F))})) \X Mus(F) \X Sides :
                     c <= SensorM(F, SensorNo(F, F[mu].s[p]))}
Before(b, d) == \/ b[1] < d[1]
                \/ b[1] = d[1] /\ b[2] < d[2]
                \/ b[1] = d[1] /\ b[2] = d[2] /\ b[3] < d[3]
Rank(F, b) == 1 + Cardinality({d \in AllBlocks(F) : Before(d, b)})
Blocks(F) == LET A == AllBlocks(F)
             IN [i \in 1..Cardinality(A) |-> CHOOSE b \in A : Cardinality({d \in A : Before(d, b)}) = i - 1]

(* the same sequence, constructively (the model checker shows that they agree)  *)
RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))
BlockSeq(F) ==
    LET ms == SensorMs(F)
        im == Im(F)
        one(c, mu, p) == IF ms[im[mu][p] + 1] >= c THEN <<<<c, mu, p>>>> ELSE <<>>
    IN FlatSeq([k \in 1..(MaxI({ms[i] : i \in 1..Len(ms)}) * Len(F)) |->
                  LET c == ((k - 1) \div Len(F)) + 1
                      mu == ((k - 1) % Len(F)) + 1
                  IN one(c, mu, 1) \o one(c, mu, 2)])

NVar(F) == LET B == BlockSeq(F) IN [i \in 1..Len(B) |-> F[B[i][2]].M]
RECURSIVE CumSeq(_, _)
CumSeq(s, k) == IF k = 0 THEN 0 ELSE CumSeq(s, k - 1) + s[k]
Bounds(s) == [k \in 1..(Len(s) + 1) |-> CumSeq(s, k - 1)]
BlockBounds(F) == Bounds(NVar(F))

(* the file cell that position q (from 1) of the value array holds *)
CellOf(F, q) == LET B == BlockSeq(F)
                    C == BlockBounds(F)
                    i == CHOOSE i \in 1..Len(B) : C[i] < q /\ q <= C[i + 1]
                IN [mu |-> B[i][2], side |-> B[i][3], c |-> B[i][1], row |-> q - C[i]]

(* the value array, when file mu holds X[side][row][column] *)
ValuesOf(F, X(_)) == LET B == BlockSeq(F)
                     IN FlatSeq([i \in 1..Len(B) |-> [r \in 1..F[B[i][2]].M |-> X(F[B[i][2]])[B[i][3]][r][B[i][1]]]])
PerMatchup(F, v(_)) == FlatSeq([mu \in Mus(F) |-> v(F[mu])])

(* ---- errors ------------------------------------------------------------------ *)
(* Two blocks have the same systematic effect iff they are the same variable of  *)
(* the same sensor.                                                              *)
SystematicKey(F, b) == <<F[b[2]].s[b[3]], b[1]>>
(* Two blocks share a weight (uncertainty) matrix iff they are of one series and *)
(* name the same matrix of its file.                                             *)
================================================================================
