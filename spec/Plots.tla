---------------------------------- MODULE Plots ----------------------------------
(* What the plots of a harmonisation result show. A dataset D as in Process, with     *)
(*   D.A / D.H[s]    parameters of sensor s: nominal ones / of the result             *)
(*   D.L[p][mu]      nominal measurands                                                *)
(*   D.civil[mu]     times of the second sensor as <<y, m, d, h, mi, s>>               *)
(*   D.names, D.labels    of the sensor variables, by number                           *)
(*   D.adds          [name, v]: additional variables, v[mu] (NaN where there is none)   *)
(* A request [what, q, dir, mus] asks for plots of a quantity.                          *)
EXTENDS Process, Stats, TLC
NaN == 2000000001
Bins == 50
Mus0(D) == 1..Len(D.Nm)
Val(D, q, mu, r) ==
    CASE q = "L1n" -> D.L[1][mu][r]
      [] q = "L2n" -> D.L[2][mu][r]
      [] q = "L1h" -> Adjusted(D, D.H, mu, 1, r)
      [] q = "L2h" -> Adjusted(D, D.H, mu, 2, r)
      [] q = "nn" -> D.L[2][mu][r] - D.L[1][mu][r] - D.ks[mu][r]
      [] q = "hh" -> KOf(D, D.H, mu, r) - D.ks[mu][r]
      [] q = "nh" -> D.L[2][mu][r] - Adjusted(D, D.H, mu, 1, r) - D.ks[mu][r]
Vals(D, q, mu) == [r \in 1..D.Nm[mu] |-> Val(D, q, mu, r)]

(* ---- names ---------------------------------------------------------------------- *)
Second(D, mu) == D.Im[mu][2]
Label(D, mu) == D.sensors[D.Im[mu][1]] \o " - " \o D.sensors[D.Im[mu][2]]
Pair(D, mu) == D.sensors[D.Im[mu][1]] \o "_" \o D.sensors[D.Im[mu][2]]
Stem == [nn |-> "k_res_nominal", hh |-> "k_res_harmonised", nh |-> "k_res_nom_harm"]
One(D, stem, name, mu) == stem \o "." \o name \o "_" \o D.sensors[Second(D, mu)] \o "_binned." \o Pair(D, mu) \o ".pdf"
All(stem, name) == stem \o "." \o name \o "_sensor_2_binned.pdf"
Has(D, mu, c) == c <= D.ms[Second(D, mu)]
HasAdd(a, mu) == \E r \in 1..Len(a.v[mu]) : a.v[mu][r] # NaN
Covs(D) == 1..MaxP(RngP(D.ms))

(* ---- the plots a request asks for ------------------------------------------------- *)
Plot(path, form, q, x, mus) == [path |-> path, form |-> form, q |-> q, x |-> x, mus |-> mus]
Selected(mus, P(_)) == SelectSeq(mus, P)
(* one plot per series that has the variable (series of a pair share a file), one of all *)
Binned(D, t, name, x, with) ==
    LET has(mu) == mu \in with
        S == SelectSeq(t.mus, has)
    IN IF S = <<>> THEN {}
       ELSE {Plot(t.dir \o One(D, Stem[t.q], name, S[i]), "one", t.q, x, SelectSeq(S, LAMBDA m : D.Im[m] = D.Im[S[i]])) : i \in 1..Len(S)}
            \cup {Plot(t.dir \o All(Stem[t.q], name), "all", t.q, x, S)}
Every(D) == [i \in 1..Len(D.Nm) |-> i]
PlotsOf(D, t) ==
    CASE t.what = "scatter" -> {Plot(t.dir \o Stem[t.q] \o "_scatter.pdf", "time", t.q, 0, Every(D))}
      [] t.what = "month"   -> {Plot(t.dir \o Stem[t.q] \o "_monthlymean.pdf", "month", t.q, 0, Every(D))}
      [] t.what = "density" -> {Plot(t.dir \o Stem[t.q] \o "_density.pdf", "density", t.q, 0, Every(D))}
      [] t.what = "L"       -> {Plot(t.dir \o "L1_vs_L2_" \o (IF t.q = "hh" THEN "harmonised" ELSE "nominal") \o "_scatter.pdf", "L", t.q, 0, Every(D))}
      [] t.what = "Ldensity" -> {Plot(t.dir \o "L1_vs_L2_" \o (IF t.q = "hh" THEN "harmonised" ELSE "nominal") \o "_density.pdf", "Ldensity", t.q, 0, Every(D))}
      [] t.what = "X" -> UNION {Binned(D, t, D.names[c], c, {mu \in Mus0(D) : Has(D, mu, c)}) : c \in Covs(D)}
      [] t.what = "x" -> UNION {Binned(D, t, D.adds[k].name, 0 - k, {mu \in Mus0(D) : HasAdd(D.adds[k], mu)}) : k \in 1..Len(D.adds)}
Wanted(D, ts) == UNION {PlotsOf(D, ts[i]) : i \in 1..Len(ts)}
(* what the plotting tool is to write                                                     *)
Ask(what, q, dir, D) == [what |-> what, q |-> q, dir |-> dir, mus |-> Every(D)]
ToolAsks(D) == LET o == "overview/"
                   h == "diagnostics/kres_harmonised/"
                   n == "diagnostics/kres_nom_harm/"
               IN << Ask("scatter", "nn", o, D), Ask("month", "nn", o, D), Ask("scatter", "hh", o, D), Ask("month", "hh", o, D),
                     Ask("scatter", "nh", o, D), Ask("month", "nh", o, D), Ask("L", "nn", o, D), Ask("L", "hh", o, D),
                     Ask("X", "hh", h \o "sensor_state_variables/", D), Ask("X", "nh", n \o "sensor_state_variables/", D),
                     Ask("x", "hh", h \o "additional_variables/", D), Ask("x", "nh", n \o "additional_variables/", D) >>

(* ---- what is in them: a series as its points; y in units of 1/2520, squared errors 1/144 *)
Abscissa(D, x, mu) == IF x > 0 THEN [r \in 1..D.Nm[mu] |-> D.blocks[BlockOf(D, mu, Second(D, mu), x)].v[r]] ELSE D.adds[0 - x].v[mu]
Known(v) == {v[r] : r \in 1..Len(v)} \ {NaN}
RangeOfAll(D, x) == LET mus == IF x > 0 THEN {mu \in Mus0(D) : Has(D, mu, x)} ELSE {mu \in Mus0(D) : HasAdd(D.adds[0 - x], mu)}
                        S == UNION {Known(Abscissa(D, x, mu)) : mu \in mus}
                    IN <<SmallestOf(S), LargestOf(S)>>
RangeOfOne(D, x, mu) == LET S == Known(Abscissa(D, x, mu)) IN <<SmallestOf(S), LargestOf(S)>>
BinOf(v, lo, hi, i) == LET w == [k \in 1..Len(v) |-> IF v[k] = NaN THEN lo ELSE v[k]] IN {k \in InBin(w, lo, hi, Bins, i) : v[k] # NaN}
FullBins(v, lo, hi) == SelectSeq([i \in 1..Bins |-> i], LAMBDA i : BinOf(v, lo, hi, i) # {})
Centre(lo, hi, i) == 100 * lo + (2 * i - 1) * (hi - lo)
MeanIs(v, S, y) == Cardinality(S) > 10 \/ y * Cardinality(S) = 2520 * Total(v, S)
(* the standard deviation, where its square is on the grid and in range                     *)
DevIs(v, S, e) == LET m == Cardinality(S)
                      k == CHOOSE x \in S : TRUE
                      d == [j \in 1..Len(v) |-> IF j \in S THEN v[j] - v[k] ELSE 0]
                      sq == [j \in 1..Len(v) |-> d[j] * d[j]]
                  IN m > 4 \/ (\E j \in S : d[j] > 900 \/ d[j] < 0 - 900) \/ e * m * m = 144 * (m * Total(sq, S) - Total(d, S) * Total(d, S))
BinnedIs(D, q, x, mu, rg, s) ==
    LET v == Abscissa(D, x, mu)
        y == Vals(D, q, mu)
        full == FullBins(v, rg[1], rg[2])
    IN /\ Len(s.x) = Len(full) /\ Len(s.y) = Len(full) /\ Len(s.e) = Len(full)
       /\ \A k \in 1..Len(full) : LET S == BinOf(v, rg[1], rg[2], full[k])
                                  IN s.x[k] = Centre(rg[1], rg[2], full[k]) /\ MeanIs(y, S, s.y[k]) /\ DevIs(y, S, s.e[k])
(* months with data                                                                           *)
MonthsIs(D, q, mu, s) ==
    LET t == D.civil[mu]
        y == Vals(D, q, mu)
        full == SelectSeq([p \in 1..PeriodCount("month", t) |-> p], LAMBDA p : InPeriod("month", t, p) # {})
    IN /\ Len(s.x) = Len(full) /\ Len(s.y) = Len(full) /\ s.e = <<>>
       /\ \A k \in 1..Len(full) : LET S == InPeriod("month", t, full[k])
                                      one == t[CHOOSE j \in S : TRUE]
                                  IN s.x[k] = 86400 * DayNumber(one[1], one[2], 1) /\ MeanIs(y, S, s.y[k])
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
Points(s) == [i \in 1..Len(s.x) |-> <<s.x[i], s.y[i]>>]
TimePoints(D, q, mu) == [r \in 1..D.Nm[mu] |-> <<D.t[2][mu][r], 2520 * Val(D, q, mu, r)>>]
LPoints(D, q, mu) == [r \in 1..D.Nm[mu] |-> <<100 * Val(D, IF q = "hh" THEN "L2h" ELSE "L2n", mu, r), 2520 * Val(D, IF q = "hh" THEN "L1h" ELSE "L1n", mu, r)>>]
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Join(Tail(ss))
Paired(s) == Len(s.x) = Len(s.y)
(* is figure f the plot p?                                                                    *)
Shows(D, p, f) ==
    CASE p.form \in {"time", "L"} ->
            /\ Len(f.series) = Len(p.mus)
            /\ \A i \in 1..Len(p.mus) : LET mu == p.mus[i]
                                            s == f.series[i]
                                        IN Paired(s) /\ s.e = <<>> /\ SameBag(Points(s), IF p.form = "L" THEN LPoints(D, p.q, mu) ELSE TimePoints(D, p.q, mu))
      [] p.form = "month" -> Len(f.series) = Len(p.mus) /\ \A i \in 1..Len(p.mus) : MonthsIs(D, p.q, p.mus[i], f.series[i])
      [] p.form \in {"density", "Ldensity"} ->
            /\ Len(f.series) = 1 /\ Paired(f.series[1])
            /\ SameBag(Points(f.series[1]), Join([i \in 1..Len(p.mus) |-> IF p.form = "density" THEN TimePoints(D, p.q, p.mus[i]) ELSE LPoints(D, p.q, p.mus[i])]))
      [] p.form = "one" -> /\ Len(f.series) = 1
                           /\ \E i \in 1..Len(p.mus) : BinnedIs(D, p.q, p.x, p.mus[i], RangeOfOne(D, p.x, p.mus[i]), f.series[1])
      [] p.form = "all" -> /\ Len(f.series) = Len(p.mus)
                           /\ \A i \in 1..Len(p.mus) : BinnedIs(D, p.q, p.x, p.mus[i], RangeOfAll(D, p.x), f.series[i])
Contains(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t
Word == [nn |-> "Nominal", hh |-> "Harmonised", nh |-> ""]
XName(D, x) == IF x > 0 THEN D.labels[x] ELSE D.adds[0 - x].name
Labelled(D, p, f) ==
    /\ p.form \notin {"density", "Ldensity", "one"} => \A i \in 1..Len(f.series) : i <= Len(p.mus) => f.series[i].label = Label(D, p.mus[i])
    /\ Contains(f.yl, Word[p.q])
    /\ p.form \in {"time", "L"} => Contains(f.yl, "(" \o ToString(SumP(D.Nm)) \o " Samples)")
    /\ p.form \in {"L", "Ldensity"} => Contains(f.yl, "Sensor 1") /\ Contains(f.xl, "Sensor 2") /\ Contains(f.xl, Word[p.q])
    /\ p.form \in {"time", "month", "density"} => f.xl = "Time"
    /\ p.form \in {"one", "all"} => Contains(f.xl, XName(D, p.x))
    /\ p.form = "one" => Contains(f.yl, Label(D, p.mus[1])) /\ Contains(f.xl, D.sensors[Second(D, p.mus[1])])
    /\ p.form \in {"density", "Ldensity"} => \E i \in 1..Len(f.texts) : f.texts[i] = "M = " \o ToString(SumP(D.Nm))

(* ---- comparison of calibrations: 20 values of every variable from its least to its        *)
(* greatest, in units of 1/19                                                                  *)
FillP(v, n) == LET a == MinP(RngP(v))
                   b == MaxP(RngP(v))
               IN [j \in 1..n |-> a * (n - 1) + (j - 1) * (b - a)]
Simulated(D) == [D EXCEPT !.blocks = [b \in 1..Len(D.blocks) |-> [D.blocks[b] EXCEPT !.v = FillP(@, 20)]],
                          !.consts = [s \in 1..Len(D.consts) |-> [k \in 1..Len(D.consts[s]) |-> 19 * D.consts[s][k]]],
                          !.track = [w \in 1..2 |-> [p \in 1..2 |-> [mu \in Mus0(D) |-> [r \in 1..20 |-> 0 - 1]]]],
                          !.t = [p \in 1..2 |-> [mu \in Mus0(D) |-> [r \in 1..20 |-> 0]]]]
Near(x, y) == LET d == IF x > y THEN x - y ELSE y - x IN d <= 2 + (IF y > 0 THEN y ELSE 0 - y) \div 5000
(* s: x in units of 1/100, y of 1/2520, e squared (2 u)^2                                      *)
ComparesAs(S, mu, p, V, s) ==
    /\ Len(s.x19) = 20 /\ Len(s.y19) = 20 /\ Len(s.e361) = 20
    /\ \A r \in 1..20 : /\ Near(s.x19[r], Measure(S, S.A, mu, p, r))
                        /\ Near(s.y19[r], Measure(S, S.A, mu, p, r) - Measure(S, S.H, mu, p, r))
                        /\ Near(s.e361[r], 4 * MeasureVar(S, S.H, V, mu, p, r))
==================================================================================
