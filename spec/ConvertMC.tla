-------------------------------- MODULE ConvertMC --------------------------------
(* Converting match-up files: every small original file, every pair of microwave    *)
(* sensors, every small simulated data set. What comes out obeys the format, holds  *)
(* every match-up that is kept once, and gives its matrices back. A folder of       *)
(* microwave files is converted file by file, in any order, up to one refused.      *)
EXTENDS Convert, Json
CONSTANTS MaxM, MaxPos, MaxK, MaxFolder

VARIABLES kind, in, todo, done
vars == <<kind, in, todo, done>>

Times(M) == {[i \in 1..M |-> 10 * p[i]] : p \in [1..M -> 0..MaxPos]}
Orig(M, k, ref, t1, t2, bad, bt, lim) ==
    LET H == [i \in 1..M |-> [c \in 1..10 |-> IF ref /\ c \in 2..5 THEN Absent ELSE 100 * i + c]]
    IN [sensors |-> <<IF ref THEN -12 ELSE 19, 18>>, H |-> H,
        Ur |-> [i \in 1..M |-> [c \in 1..10 |-> 10 + c]],
        Us |-> [i \in 1..M |-> [c \in 1..10 |-> IF c \in {4, 5, 9, 10} \/ (ref /\ c = 1) THEN c ELSE 0]],
        K |-> [i \in 1..M |-> i], Kr |-> [i \in 1..M |-> i], Ks |-> [i \in 1..M |-> 0],
        time |-> <<t1, t2>>, t |-> <<t1, t2>>,
        u |-> [q \in 1..4 |-> [i \in 1..M |-> [j \in 1..k |-> IF <<q, i>> = bad /\ j = k THEN Absent ELSE 1 + q]]],
        bt |-> <<bt, bt>>, lim |-> lim, band |-> 11, extra |-> [latitude |-> [dtype |-> "float32", v |-> bt]]]
MwFile(s, M) ==
    LET m == <<MwCols(Instrument(s[1])), MwCols(Instrument(s[2]))>>
        one(p, x) == [i \in 1..M |-> [c \in 1..m[p] |-> x]]
        sys(p) == [i \in 1..M |-> [c \in 1..m[p] |-> IF MwTypes(Instrument(s[p]))[c] \in {2, 4} THEN 1 ELSE 0]]
        ty(p) == [c \in 1..m[p] |-> 1]
    IN [vars |-> Basic("float64", <<one(1, 5), one(2, 6)>>, <<one(1, 2), one(2, 3)>>, <<sys(1), sys(2)>>, <<ty(1), ty(2)>>,
                       [i \in 1..M |-> 1], [i \in 1..M |-> 1], [i \in 1..M |-> 1], <<[i \in 1..M |-> i], [i \in 1..M |-> i]>>),
        sizes |-> Sizes(M, m[1], m[2]), attrs |-> [sensor_1_name |-> s[1], sensor_2_name |-> s[2]]]
MwNames == {"18", "15", "16", "19", "mb", "x"}
SimVars == {[form |-> "R", r |-> 1, s |-> 0, k |-> 0], [form |-> "RS", r |-> 2, s |-> 3, k |-> 0]} \cup {[form |-> "MA", r |-> 4, s |-> 0, k |-> k] : k \in 1..MaxK}
SimIn(pairs, n, vs) ==
    LET M == SumTo(n, Len(n))
    IN [pairs |-> pairs, n |-> n, uref |-> 7, Kr |-> 8, vars |-> vs, H |-> [i \in 1..M |-> [c \in 1..(2 * Len(vs) + 1) |-> 100 * i + c]]]

Nil == [x \in {} |-> 0]
Init == kind = "none" /\ in = Nil /\ todo = {} /\ done = {}
(* an original file comes together in two steps *)
GetShape == /\ kind = "none" /\ kind' = "shape"
            /\ \E M \in 1..MaxM, k \in 1..MaxK, ref \in BOOLEAN : \E t1 \in Times(M) : in' = [M |-> M, k |-> k, ref |-> ref, t1 |-> t1]
            /\ UNCHANGED <<todo, done>>
GetOrig == /\ kind = "shape" /\ kind' = "avhrr"
           /\ \E t2 \in Times(in.M), bad \in {<<0, 0>>} \cup ((1..4) \X (1..in.M)), bt \in [1..in.M -> 1..2], lim \in {NoLimit, 2} :
                /\ lim = NoLimit => \A i \in 1..in.M : bt[i] = 1
                /\ in' = Orig(in.M, in.k, in.ref, in.t1, t2, bad, bt, lim)
           /\ UNCHANGED <<todo, done>>
GetPair == /\ kind = "none" /\ kind' = "pair"
           /\ \E s1 \in MwNames : \E s2 \in MwNames \ {s1} : in' = [s |-> <<s1, s2>>]
           /\ UNCHANGED <<todo, done>>
GetMw == /\ kind = "pair" /\ kind' = "mw"
         /\ \E M \in 1..MaxM : \E t1 \in Times(M), t2 \in Times(M) : in' = [s |-> in.s, f |-> MwFile(in.s, M), t |-> <<t1, t2>>]
         /\ UNCHANGED <<todo, done>>
GetSim == /\ kind = "none" /\ kind' = "sim"
          /\ \E np \in 1..2 : \E ps \in [1..np -> {<<"0", "1">>, <<"1", "2">>}], n \in [1..np -> 1..MaxM] : \E nX \in 1..2 : \E vs \in [1..nX -> SimVars] :
                /\ \A a, b \in 1..np : a # b => ps[a] # ps[b]
                /\ in' = SimIn(ps, n, vs)
          /\ UNCHANGED <<todo, done>>
(* a folder: files are numbers, each with the sensors of a pair *)
Pairs == <<<<"18", "19">>, <<"15", "mb">>, <<"19", "18">>, <<"x", "16">>>>
GetFolder == /\ kind = "none" /\ kind' = "folder"
             /\ \E S \in SUBSET (1..Len(Pairs)) : Cardinality(S) <= MaxFolder /\ todo' = S /\ in' = [all |-> S]
             /\ UNCHANGED done
Take == /\ kind = "folder" /\ \E x \in todo :
             IF MwAccepted(Pairs[x]) THEN /\ todo' = todo \ {x} /\ done' = done \cup {x} /\ UNCHANGED kind
                                     ELSE /\ kind' = "refused" /\ UNCHANGED <<todo, done>>
        /\ UNCHANGED in
Next == GetShape \/ GetOrig \/ GetPair \/ GetMw \/ GetSim \/ GetFolder \/ Take
Spec == Init /\ [][Next]_vars

Full(x) == WithMatrices(x.f, x.W, x.U, x.wuse, x.uuse)
(* every matrix used is given back by the arrays of the file *)
GivenBack(x) == x.W # <<>> =>
    LET S == Stored(Full(x))
    IN \A p \in 1..2 : \A c \in 1..Len(x.wuse[p]) : x.wuse[p][c] # 0 =>
           /\ ReadU(S, x.uuse[p][c]) = x.U[x.uuse[p][c]]
           /\ DenseN(ReadW(S, x.wuse[p][c]), Len(x.U[x.uuse[p][c]])) = x.W[x.wuse[p][c]]
Fine(x) == Violations(Full(x)) = {} /\ GivenBack(x)
AvhrrOk == kind = "avhrr" /\ Valid(in) # <<>> => \A n \in 4..5, v \in Variants : Fine(Avhrr(in, n, v))
(* match-ups kept, in order; what distinguishes the files is the uncertainty alone *)
AvhrrKept == kind = "avhrr" /\ Valid(in) # <<>> =>
    /\ \A n \in 4..5, v \in Variants : LET o == Avhrr(in, n, v).f.vars
                                       IN /\ \A i \in 1..Len(o.K.v) : in.K[o.original_indices.v[i] + 1] = o.K.v[i]
                                          /\ \A j \in 1..Len(in.K) : (j - 1 \in {o.original_indices.v[i] : i \in 1..Len(o.K.v)}) <=>
                                                (in.lim # NoLimit => in.bt[2][j] >= in.lim) /\ \A q \in 1..4 : \A z \in 1..Len(in.u[q][j]) : in.u[q][j][z] # Absent
                                          /\ o.X2.v = Avhrr(in, n, "RSW_").f.vars.X2.v
    /\ Avhrr(in, 5, "RSW_").W = Avhrr(in, 4, "R_W_").W /\ Avhrr(in, 5, "R_W_").U = Avhrr(in, 5, "RSW_").U
(* the mean uncertainty of constant uncertainties is that constant *)
AvhrrMean == kind = "avhrr" /\ Valid(in) # <<>> => LET o == Avhrr(in, 5, "R___").f.vars IN \A i \in 1..Len(o.Ur2.v) : o.Ur2.v[i][1] = 4 /\ o.Ur2.v[i][2] = 5
MwOk == kind = "mw" /\ MwAccepted(in.s) => Fine(Mw(in.f, in.t))
MwKept == kind = "mw" /\ MwAccepted(in.s) => LET o == Mw(in.f, in.t).f IN
    \A n \in DOMAIN in.f.vars \ {"Ur1", "Ur2", "uncertainty_type1", "uncertainty_type2"} : o.vars[n] = in.f.vars[n]
SimOk == kind = "sim" /\ Cardinality(SimOdd(in)) <= 1 => \A i \in 1..Len(in.pairs) : Fine(Sim(in, i))
RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatAll(Tail(ss))
SimSplit == kind = "sim" /\ Cardinality(SimOdd(in)) <= 1 =>
    /\ CatAll([i \in 1..Len(in.pairs) |-> Sim(in, i).f.vars.K.v]) = [r \in 1..Len(in.H) |-> in.H[r][Len(in.H[r])]]
    /\ CatAll([i \in 1..Len(in.pairs) |-> Sim(in, i).f.vars.time1.v]) = [r \in 1..Len(in.H) |-> r - 1]
FolderOk == kind \in {"folder", "refused"} => /\ done \cup todo = in.all /\ \A x \in done : MwAccepted(Pairs[x])
                                              /\ (kind = "refused" => \E x \in todo : ~ MwAccepted(Pairs[x]))
Emit == /\ (kind = "none" => PrintT("@@" \o ToJson([band |-> Band])))
        /\ (kind = "avhrr" => PrintT("@@" \o ToJson([avhrr |-> [t |-> in.t, k |-> Len(in.u[1][1]), ref |-> Ref(in),
                bad |-> {<<q, i>> \in (1..4) \X (1..Len(in.K)) : \E j \in 1..Len(in.u[q][i]) : in.u[q][i][j] = Absent}, bt |-> in.bt[1], lim |-> in.lim # NoLimit]])))
        /\ (kind = "mw" => PrintT("@@" \o ToJson([mw |-> [s |-> in.s, t |-> in.t]])))
        /\ (kind = "sim" => PrintT("@@" \o ToJson([sim |-> [pairs |-> in.pairs, n |-> in.n, vars |-> in.vars]])))
================================================================================
