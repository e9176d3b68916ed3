--------------------------------- MODULE Convert ---------------------------------
(* What the converters of match-up files write.                                     *)
(*   Avhrr   original AVHRR files -> six files in the newest format                 *)
(*   Mw      microwave files -> the same with weight and uncertainty matrices       *)
(*   Sim     simulated data in text files -> one match-up file per sensor pair      *)
(*   Band    temperatures and radiances of AVHRR channels                           *)
(* A file is described as for the checker: [vars, sizes, attrs] (see Checker), its  *)
(* matrices apart, as dense W (by rows) and the diagonals U.                        *)
EXTENDS WFiles, Checker, TLC

QC == 1048576                  \* values are integers on this grid
Absent == 2000000001           \* not a number
NoLimit == -2000000001

Pick(s, idx) == [i \in 1..Len(idx) |-> s[idx[i]]]
Cols(rows, idx, cs) == [i \in 1..Len(idx) |-> [j \in 1..Len(cs) |-> rows[idx[i]][cs[j]]]]
Const(M, m, x) == [i \in 1..M |-> [j \in 1..m |-> x]]
Var(d, t, v) == [dims |-> d, dtype |-> t, v |-> v]
Range(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]

(* the variables that every file has *)
Basic(ft, X, Ur, Us, ty, K, Kr, Ks, time) ==
    [X1 |-> Var(<<"M", "m1">>, ft, X[1]), X2 |-> Var(<<"M", "m2">>, ft, X[2]),
     Ur1 |-> Var(<<"M", "m1">>, ft, Ur[1]), Ur2 |-> Var(<<"M", "m2">>, ft, Ur[2]),
     Us1 |-> Var(<<"M", "m1">>, ft, Us[1]), Us2 |-> Var(<<"M", "m2">>, ft, Us[2]),
     uncertainty_type1 |-> Var(<<"m1">>, "int32", ty[1]), uncertainty_type2 |-> Var(<<"m2">>, "int32", ty[2]),
     K |-> Var(<<"M">>, ft, K), Kr |-> Var(<<"M">>, ft, Kr), Ks |-> Var(<<"M">>, ft, Ks),
     time1 |-> Var(<<"M">>, "float64", time[1]), time2 |-> Var(<<"M">>, "float64", time[2])]
Sizes(M, m1, m2) == [M |-> M, m1 |-> m1, m2 |-> m2]

(* ---- matrices in a file ----------------------------------------------------------- *)
CsrOf(D) == LET nz(i) == AscW({j \in 1..Len(D[i]) : D[i][j] # 0})
            IN [row |-> [i \in 1..(Len(D) + 1) |-> SumTo([x \in 1..Len(D) |-> Len(nz(x))], i - 1)],
                col |-> CatW([i \in 1..Len(D) |-> [j \in 1..Len(nz(i)) |-> nz(i)[j] - 1]]),
                val |-> CatW([i \in 1..Len(D) |-> [j \in 1..Len(nz(i)) |-> D[i][nz(i)[j]]]])]
LOCAL SumC3(s) == SumTo(s, Len(s))
WithMatrices(f, W, U, wuse, uuse) ==
    IF W = <<>> THEN f
    ELSE LET S == Serial([i \in 1..Len(W) |-> CsrOf(W[i])], U)
         IN [f EXCEPT
              !.vars = @ @@ [w_matrix_nnz |-> Var(<<"w_matrix_count">>, "int32", S.nnz),
                             w_matrix_row |-> Var(<<"w_matrix_count", "w_matrix_row_count">>, "int32", S.row),
                             w_matrix_col |-> Var(<<"w_matrix_nnz_sum">>, "int32", S.col), w_matrix_val |-> Var(<<"w_matrix_nnz_sum">>, "float64", S.val),
                             u_matrix_row_count |-> Var(<<"u_matrix_count">>, "int32", S.ucount),
                             u_matrix_val |-> Var(<<"u_matrix_row_count_sum">>, "float64", S.uval),
                             w_matrix_use1 |-> Var(<<"m1">>, "int32", wuse[1]), w_matrix_use2 |-> Var(<<"m2">>, "int32", wuse[2]),
                             u_matrix_use1 |-> Var(<<"m1">>, "int32", uuse[1]), u_matrix_use2 |-> Var(<<"m2">>, "int32", uuse[2])],
              !.sizes = @ @@ [w_matrix_count |-> Len(W), w_matrix_row_count |-> f.sizes.M + 1, w_matrix_nnz_sum |-> Len(S.val),
                              u_matrix_count |-> Len(U), u_matrix_row_count_sum |-> SumC3(S.ucount)]]
(* matrices read from the arrays of a file, W with the width of the U it goes with *)
DenseN(w, n) == [r \in 1..(Len(w.row) - 1) |-> [c \in 1..n |->
                   LET S == {k \in (w.row[r] + 1)..w.row[r + 1] : w.col[k] = c - 1}
                   IN SumTo([x \in 1..Cardinality(S) |-> w.val[AscW(S)[x]]], Cardinality(S))]]
Stored(f) == [nnz |-> V(f, "w_matrix_nnz"), row |-> V(f, "w_matrix_row"), col |-> V(f, "w_matrix_col"), val |-> V(f, "w_matrix_val"),
              ucount |-> V(f, "u_matrix_row_count"), uval |-> V(f, "u_matrix_val")]

(* ---- AVHRR ------------------------------------------------------------------------- *)
(* in: sensors <<number, number>>, H, Ur, Us (10 columns), K, Kr, Ks, time <<1, 2>>, t <<1, 2>> (tenths of a scan line),           *)
(*     u <<space 1, target 1, space 2, target 2>> (M rows of k), bt <<1, 2>>, lim, band, extra (old name -> [dtype, v])              *)
SensorNames == {<<-12, "aatsr">>, <<-11, "atsr2">>, <<-10, "atsr1">>, <<-1, "m02">>, <<19, "n19">>, <<18, "n18">>, <<17, "n17">>, <<16, "n16">>,
                <<15, "n15">>, <<14, "n14">>, <<12, "n12">>, <<11, "n11">>, <<10, "n10">>, <<9, "n09">>, <<8, "n08">>, <<7, "n07">>}
KnownSensor(n) == \E x \in SensorNames : x[1] = n
SensorName(n) == (CHOOSE x \in SensorNames : x[1] = n)[2]
NewNames == {<<"latitude", "lat2">>, <<"longitude", "lon2">>, <<"satza", "vza2">>, <<"solza", "sza2">>,
             <<"ref_latitude", "lat1">>, <<"ref_longitude", "lon1">>, <<"ref_satza", "vza1">>, <<"ref_solza", "sza1">>}
NominalUnit == 65536           \* radiances are recorded in units of those of their temperature
Ref(in) == in.H[1][4] = Absent
Valid(in) == AscW({i \in 1..Len(in.K) : /\ \A q \in 1..4 : \A j \in 1..Len(in.u[q][i]) : in.u[q][i][j] # Absent
                                        /\ in.lim = NoLimit \/ in.bt[2][i] >= in.lim})
Kernel1(k) == [i \in 1..k |-> QC \div k]
Variants == {"RSW_", "R_W_", "R___"}
Folder(band, n, v) == "AVHRR_REAL_" \o (IF band = 37 THEN IF n = 4 THEN "105" ELSE "106" ELSE IF n = 4 THEN "101" ELSE "102") \o "_" \o v
(* mean over the scan lines of a match-up *)
MeanU(t, k, U) == LET p == AbsPos(t)
                      c == AscW(Used(t, Kernel1(k)))
                  IN [i \in 1..Len(t) |-> SumTo([j \in 1..Len(c) |-> IF c[j] >= p[i] /\ c[j] < p[i] + k THEN U[j] ELSE 0], Len(c)) \div k]
(* [f |-> the file without matrices, W, U, wuse, uuse]: the file of variant v with n variables per sensor *)
Avhrr(in, n, v) ==
    LET ref == Ref(in)
        idx == Valid(in)
        M == Len(idx)
        k == Len(in.u[1][1])
        m == <<IF ref THEN 1 ELSE n, n>>
        off == <<0, 5>>
        t(p) == Pick(in.t[p], idx)
        u(q) == RollU(t(IF q <= 2 THEN 1 ELSE 2), Kernel1(k), Pick(in.u[q], idx))
        avg(p, c) == (p = 2 \/ ~ ref) /\ c <= 2            \* a rolling average
        types == IF v = "R___" THEN <<1, 1, 1, 1, 1>> ELSE IF v = "R_W_" THEN <<3, 3, 1, 1, 1>> ELSE <<3, 3, 1, 2, 2>>
        ty(p) == IF p = 1 /\ ref THEN <<1>> ELSE SubSeq(types, 1, n)
        X(p) == Cols(in.H, idx, Range(off[p] + 1, off[p] + m[p]))
        mean == [p \in 1..2 |-> [c \in 1..2 |-> IF v = "R___" /\ avg(p, c) THEN MeanU(t(p), k, u(2 * (p - 1) + c)) ELSE <<>>]]
        Ur(p) == [i \in 1..M |-> [c \in 1..m[p] |-> IF ~ avg(p, c) THEN in.Ur[idx[i]][off[p] + c]
                                                    ELSE IF v = "R___" THEN mean[p][c][i] ELSE 0]]
        Us(p) == [i \in 1..M |-> [c \in 1..m[p] |-> IF v # "RSW_" \/ (p = 1 /\ ref) THEN 0 ELSE in.Us[idx[i]][off[p] + c]]]
        extra == [x \in {y[2] : y \in {y \in NewNames : y[1] \in DOMAIN in.extra}} |->
                    LET e == in.extra[(CHOOSE y \in NewNames : y[2] = x)[1]] IN Var(<<"M">>, e.dtype, Pick(e.v, idx))]
        to(p) == [i \in 1..M |-> in.H[idx[i]][off[p] + 5]]
        tos == IF n # 4 THEN {} ELSE IF ref THEN {"To2"} ELSE {"To1", "To2"}
        z(w) == w \o SubSeq(<<0, 0, 0, 0, 0>>, 1, n - 2)
        zero == [i \in 1..m[1] |-> 0]
        weights(p) == RollW(t(p), Kernel1(k))
    IN [f |-> [vars |-> Basic("float32", <<X(1), X(2)>>, <<Ur(1), Ur(2)>>, <<Us(1), Us(2)>>, <<ty(1), ty(2)>>, Pick(in.K, idx), Pick(in.Kr, idx),
                              Pick(in.Ks, idx), <<Pick(in.time[1], idx), Pick(in.time[2], idx)>>)
                        @@ extra
                        @@ [original_indices |-> Var(<<"M">>, "int32", [i \in 1..M |-> idx[i] - 1]),
                            nominal_measurand1 |-> Var(<<"M">>, "float32", [i \in 1..M |-> NominalUnit]),
                            nominal_measurand2 |-> Var(<<"M">>, "float32", [i \in 1..M |-> NominalUnit])]
                        @@ [x \in tos |-> Var(<<"M">>, "float32", to(IF x = "To1" THEN 1 ELSE 2))],
               sizes |-> Sizes(M, m[1], m[2]),
               attrs |-> [sensor_1_name |-> SensorName(in.sensors[1]), sensor_2_name |-> SensorName(in.sensors[2])]],
        W |-> IF v = "R___" THEN <<>> ELSE IF ref THEN <<weights(2)>> ELSE <<weights(1), weights(2)>>,
        U |-> IF v = "R___" THEN <<>> ELSE IF ref THEN <<u(3), u(4)>> ELSE <<u(1), u(2), u(3), u(4)>>,
        wuse |-> IF ref THEN <<zero, z(<<1, 1>>)>> ELSE <<z(<<1, 1>>), z(<<2, 2>>)>>,
        uuse |-> IF ref THEN <<zero, z(<<1, 2>>)>> ELSE <<z(<<1, 2>>), z(<<3, 4>>)>>]

(* ---- microwave sensors --------------------------------------------------------------- *)
Instrument(name) == IF name \in {"15", "16", "17"} THEN "AMSUB" ELSE IF name \in {"19", "ma", "mb"} THEN "MHS" ELSE IF name = "18" THEN "ref" ELSE "none"
MwAccepted(s) == Instrument(s[1]) # "none" /\ Instrument(s[2]) \in {"AMSUB", "MHS"}
Averaged(instr) == IF instr = "AMSUB" THEN 9 ELSE IF instr = "MHS" THEN 7 ELSE 0           \* the other two are not
MwCols(instr) == IF instr = "ref" THEN 1 ELSE Averaged(instr) + 2
MwTypes(instr) == IF instr = "ref" THEN <<1>> ELSE [c \in 1..MwCols(instr) |-> IF c <= 2 THEN 3 ELSE IF c <= Averaged(instr) THEN 4 ELSE IF c = Averaged(instr) + 1 THEN 1 ELSE 2]
MwWeights == [i \in 1..7 |-> (QC \div 16) * (IF i <= 4 THEN i ELSE 8 - i)]
MwUse(instr, x) == [c \in 1..MwCols(instr) |-> IF instr = "ref" \/ c > Averaged(instr) THEN 0 ELSE x + (IF c <= 2 THEN c ELSE 3)]
MwWUse(instr, x) == [c \in 1..MwCols(instr) |-> IF instr = "ref" \/ c > Averaged(instr) THEN 0 ELSE x]
(* f: the file given; t: times in tenths of a scan line *)
Mw(f, t) ==
    LET i1 == Instrument(f.attrs.sensor_1_name)
        i2 == Instrument(f.attrs.sensor_2_name)
        ref == i1 = "ref"
        ur(p) == IF p = 1 THEN f.vars.Ur1.v ELSE f.vars.Ur2.v
        lines(p) == Cardinality(Used(t[p], MwWeights))
        u(p, c) == [j \in 1..lines(p) |-> ur(p)[1][c]]
        cut(p, n) == [i \in 1..Len(ur(p)) |-> [c \in 1..Len(ur(p)[i]) |-> IF c <= n THEN 0 ELSE ur(p)[i][c]]]
    IN [f |-> [f EXCEPT !.vars.Ur1.v = cut(1, Averaged(i1)), !.vars.Ur2.v = cut(2, Averaged(i2)),
                        !.vars.uncertainty_type1.v = MwTypes(i1), !.vars.uncertainty_type2.v = MwTypes(i2)],
        W |-> IF ref THEN <<RollW(t[2], MwWeights)>> ELSE <<RollW(t[1], MwWeights), RollW(t[2], MwWeights)>>,
        U |-> IF ref THEN <<u(2, 1), u(2, 2), u(2, 3)>> ELSE <<u(1, 1), u(1, 2), u(1, 3), u(2, 1), u(2, 2), u(2, 3)>>,
        wuse |-> IF ref THEN <<<<0>>, MwWUse(i2, 1)>> ELSE <<MwWUse(i1, 1), MwWUse(i2, 2)>>,
        uuse |-> IF ref THEN <<<<0>>, MwUse(i2, 0)>> ELSE <<MwUse(i1, 0), MwUse(i2, 3)>>]

(* ---- simulated data -------------------------------------------------------------------- *)
(* in: pairs (sequence of <<name, name>>), n (match-ups of each), H (rows: variables of sensor 1, of sensor 2, K), uref, Kr,       *)
(*     vars (sequence of [form, r, s, k]: "R" independent r; "RS" and systematic s; "MA" average of k values of uncertainty r)      *)
SimType(x) == IF x.form = "R" THEN 1 ELSE IF x.form = "RS" THEN 2 ELSE 3
SimName(in, i) == in.pairs[i][1] \o "_" \o in.pairs[i][2] \o ".nc"
SimOdd(in) == {<<x.r, x.k>> : x \in {y \in {in.vars[j] : j \in 1..Len(in.vars)} : y.form = "MA"}}   \* averages must all be alike
Sim(in, i) ==
    LET nX == Len(in.vars)
        ref == in.pairs[i][1] = "0"
        M == in.n[i]
        a == SumTo(in.n, i - 1)
        rows == Range(a + 1, a + M)
        m1 == IF ref THEN 1 ELSE nX
        ty == [j \in 1..nX |-> SimType(in.vars[j])]
        ur == [j \in 1..nX |-> IF ty[j] = 3 THEN 0 ELSE in.vars[j].r]
        us == [j \in 1..nX |-> IF ty[j] = 2 THEN in.vars[j].s ELSE 0]
        T == [j \in 1..M |-> a + j - 1]
        use == [j \in 1..nX |-> IF ty[j] = 3 THEN 1 ELSE 0]
        some == SimOdd(in) # {}
        av == CHOOSE x \in SimOdd(in) : TRUE
        tens == [j \in 1..M |-> 10 * (j - 1)]
        use1 == IF ref THEN <<0>> ELSE use
    IN [f |-> [vars |-> Basic("float64", <<Cols(in.H, rows, Range(1, m1)), Cols(in.H, rows, Range(nX + 1, 2 * nX))>>,
                              <<[j \in 1..M |-> IF ref THEN <<in.uref>> ELSE ur], [j \in 1..M |-> ur]>>,
                              <<[j \in 1..M |-> IF ref THEN <<0>> ELSE us], [j \in 1..M |-> us]>>,
                              <<IF ref THEN <<1>> ELSE ty, ty>>, [j \in 1..M |-> in.H[a + j][2 * nX + 1]], [j \in 1..M |-> in.Kr], [j \in 1..M |-> 0], <<T, T>>),
               sizes |-> Sizes(M, m1, nX),
               attrs |-> [sensor_1_name |-> in.pairs[i][1], sensor_2_name |-> in.pairs[i][2]]],
        W |-> IF some THEN <<RollW(tens, Kernel1(av[2]))>> ELSE <<>>,
        U |-> IF some THEN <<[j \in 1..Cardinality(Used(tens, Kernel1(av[2]))) |-> av[1]]>> ELSE <<>>,
        wuse |-> <<use1, use>>, uuse |-> <<use1, use>>]

(* ---- AVHRR channels ------------------------------------------------------------------------ *)
(* Wave number (in 1/1000 per cm), intercept (1e-6 K) and slope (1e-6) of the channels at 3.7, 11 and 12 um; zeros: no such channel. The radiance at    *)
(* temperature T is C1 nu^3 / (exp(C2 nu / (intercept + slope T)) - 1). Where the exponential is 1 + 2^j it is C1 nu^3 / 2^j: the exact points used.   *)
Band == [m02 |-> <<<<2685110, 1991260, 996287>>, <<926605, 448099, 998631>>, <<837805, 382986, 998879>>>>,
         n19 |-> <<<<2678510, 1901920, 999063>>, <<928179, 406106, 998698>>, <<832010, 391425, 998849>>>>,
         n18 |-> <<<<2675310, 2100860, 1000060>>, <<928680, 348003, 998861>>, <<834073, 408531, 998805>>>>,
         n17 |-> <<<<2678190, 1932860, 999144>>, <<927486, 431676, 998637>>, <<840187, 370802, 998917>>>>,
         n16 |-> <<<<2688430, 1855480, 995179>>, <<919600, 693914, 998170>>, <<836710, 440396, 998707>>>>,
         n15 |-> <<<<2687150, 1406740, 996299>>, <<926258, 451169, 998636>>, <<840231, 365465, 998931>>>>,
         n14 |-> <<<<2674390, 2394860, 1000040>>, <<930521, 621590, 998294>>, <<835544, 419563, 998769>>>>,
         n12 |-> <<<<2671810, 2428530, 1001020>>, <<921925, 560212, 998415>>, <<838003, 398581, 998832>>>>,
         n11 |-> <<<<2682850, 1682180, 997630>>, <<928047, 393074, 998759>>, <<842869, 406868, 998803>>>>,
         n10 |-> <<<<2679110, 1936770, 998787>>, <<910515, 457244, 998768>>, <<0, 0, 0>>>>,
         n09 |-> <<<<2685840, 1742310, 996351>>, <<929574, 347473, 998839>>, <<846292, 493176, 998698>>>>,
         n08 |-> <<<<2671120, 2316400, 1001460>>, <<915281, 497544, 998654>>, <<0, 0, 0>>>>,
         n07 |-> <<<<2683180, 1732900, 997424>>, <<927508, 405709, 998741>>, <<841403, 392737, 998845>>>>,
         n06 |-> <<<<2678590, 1945280, 998976>>, <<913461, 505261, 998636>>, <<0, 0, 0>>>>,
         tn |-> <<<<2672500, 2112440, 1001190>>, <<913041, 531096, 998563>>, <<0, 0, 0>>>>,
         aatsr |-> <<<<2681590, 1778870, 998005>>, <<923695, 454752, 998814>>, <<832715, 498667, 998525>>>>,
         atsr1 |-> <<<<2686350, 2133330, 995620>>, <<918255, 532039, 998695>>, <<841035, 432575, 998729>>>>,
         atsr2 |-> <<<<2699000, 2040020, 990740>>, <<917236, 597643, 998578>>, <<831569, 467731, 998620>>>>]
HasChannel(name, c) == name \in DOMAIN Band /\ Band[name][c][1] > 0
================================================================================
