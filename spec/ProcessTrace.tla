------------------------------- MODULE ProcessTrace -------------------------------
(* Recorded processing of opened match-up datasets.                                  *)
(*   data      a dataset as the object holds it                                      *)
(*   sample    its sample of independent errors                                      *)
(*   norm      its normalised independent variables; back: values put back           *)
(*   sim       its space-filling simulation                                          *)
(*   measure   evaluation of sensor functions, adjustments, K                        *)
EXTENDS Process, TraceLib
VARIABLES l, ds
tvars == <<l, ds>>

Clauses(ev) ==
  CASE ev = "sample"  -> {"P08.status", "P08.index", "P08.rows", "P08.independent", "P08.size", "P08.values", "P08.uncertainty",
                          "P08.per-matchup", "P08.carried", "P08.input"}
    [] ev = "norm"    -> {"P09.status", "P09.index", "P09.values", "P09.structured", "P09.systematic", "P09.ks", "P09.carried", "P09.input"}
    [] ev = "back"    -> {"P09.back", "P09.back-ks", "P09.back-index"}
    [] ev = "round"   -> {"P09.round"}
    [] ev = "sim"     -> {"P10.status", "P10.index", "P10.fill", "P10.fill-ks", "P10.carried", "P10.input"}
    [] ev = "measure" -> {"P11.status", "P11.measurand", "P11.derivatives", "P11.uncertainty", "P11.input"}
    [] ev = "adjust"  -> {"P11.status", "P11.adjusted", "P11.adjusted-derivatives", "P11.derivatives", "P11.input"}
    [] ev = "K"       -> {"P11.status", "P11.K", "P11.input"}
    [] OTHER -> {}

Mus(D) == 1..Len(D.Nm)
Blk(D) == 1..Len(D.blocks)
Sums(s) == [i \in 1..(Len(s) + 1) |-> SumToP(s, i - 1)]
(* the index of a dataset whose series have n match-ups each                          *)
IndexOk(D, o, n, sizes, bounds) ==
    /\ o.Nm = n /\ o.cNm = Sums(n)
    /\ o.N_var = sizes /\ o.idx = bounds
    /\ o.n_mu = [b \in Blk(D) |-> D.blocks[b].mu] /\ o.n_sensor = [b \in Blk(D) |-> D.blocks[b].s]
    /\ o.n_cov = [b \in Blk(D) |-> D.blocks[b].c]
    /\ o.Im = D.Im /\ o.sensors = D.sensors /\ o.ms = D.ms

(* ---- sampling: the adjustment values tell which match-ups were taken -------------- *)
RowOf(D, mu, x) == CHOOSE r \in 1..D.Nm[mu] : D.ks[mu][r] = x
Identified(D, o) == \A mu \in Mus(D) : \A i \in 1..Len(o.ks[mu]) : \E r \in 1..D.Nm[mu] : D.ks[mu][r] = o.ks[mu][i]
Rows(D, o, mu) == [i \in 1..Len(o.ks[mu]) |-> RowOf(D, mu, o.ks[mu][i])]
Limit(r, D, mu) ==     \* as a fraction <<numerator, denominator>> of match-ups
    LET tot == SumP(D.Nm)
    IN IF tot * r.sf[1] > r.nmax * r.sf[2] THEN <<D.Nm[mu] * r.nmax, tot>> ELSE <<D.Nm[mu] * r.sf[1], r.sf[2]>>
AtMost(q) == q[1] \div q[2]
Reached(n, q) == n = AtMost(q) \/ (q[1] % q[2] = 0 /\ n = AtMost(q) - 1)     \* the factor is rounded

(* ---- space-filling: n equal steps from the least to the greatest value; ends and     *)
(* steps in units of 1/(n-1)                                                            *)
Fill(v, n) == LET a == MinP(RngP(v))
                  b == MaxP(RngP(v))
              IN IF n = 1 THEN <<a>> ELSE [j \in 1..n |-> a * (n - 1) + (j - 1) * (b - a)]

(* ---- evaluation over the selected series ---------------------------------------------- *)
RowsOf(D, sel) == Flat([i \in 1..Len(sel) |-> [r \in 1..D.Nm[sel[i]] |-> <<sel[i], r>>]])
DerivOk(r, D) == LET o == r.obs IN
    \A i \in 1..Len(r.sel) : LET mu == r.sel[i] IN
        \A p \in 1..2 : o.J[mu][p] = [q \in 1..D.Nm[mu] |-> Deriv(D, D.A, mu, p, q)]

Holds(c, r, D) ==
  LET o == r.obs IN
  CASE c \in {"P08.status", "P09.status", "P10.status", "P11.status"} -> o.status = "ok"
    [] c \in {"P08.input", "P09.input", "P10.input", "P11.input"} -> o.status = "ok" => o.same
    [] c \in {"P08.carried", "P09.carried", "P10.carried"} -> o.status = "ok" => o.carried
    [] c = "P08.index" -> o.status = "ok" =>
          LET n == [mu \in Mus(D) |-> Len(o.ks[mu])]
              sizes == [b \in Blk(D) |-> n[D.blocks[b].mu]]
          IN IndexOk(D, o, n, sizes, Sums(sizes))
    [] c = "P08.rows" -> o.status = "ok" =>
          Identified(D, o) /\ \A mu \in Mus(D) : Cardinality(RngP(Rows(D, o, mu))) = Len(o.ks[mu])
    [] c = "P08.independent" -> (o.status = "ok" /\ Identified(D, o)) => \A mu \in Mus(D) : Independent(D, mu, RngP(Rows(D, o, mu)))
    [] c = "P08.size" -> (o.status = "ok" /\ Identified(D, o)) =>
          \A mu \in Mus(D) : LET n == Len(o.ks[mu]) IN
             /\ n <= AtMost(Limit(r, D, mu))
             /\ Reached(n, Limit(r, D, mu)) \/ Maximal(D, mu, RngP(Rows(D, o, mu)))
    [] c = "P08.values" -> (o.status = "ok" /\ Identified(D, o)) =>
          \A b \in Blk(D) : o.v[b] = Pick(D.blocks[b].v, Rows(D, o, D.blocks[b].mu))
    [] c = "P08.uncertainty" -> (o.status = "ok" /\ Identified(D, o)) =>
          /\ \A b \in Blk(D) : /\ o.t[b] = 1
                               /\ o.var[b] = [i \in 1..Len(o.ks[D.blocks[b].mu]) |-> Variance(D, b, Rows(D, o, D.blocks[b].mu)[i])]
          /\ \A mu \in Mus(D) : o.kr[mu] = Pick(D.kr[mu], Rows(D, o, mu))
    [] c = "P08.per-matchup" -> (o.status = "ok" /\ Identified(D, o)) =>
          \A mu \in Mus(D), p \in 1..2 : /\ o.tm[p][mu] = Pick(D.t[p][mu], Rows(D, o, mu))
                                         /\ \A w \in 1..2 : o.track[w][p][mu] = Pick(D.track[w][p][mu], Rows(D, o, mu))
    [] c = "P09.index" -> o.status = "ok" => IndexOk(D, o, D.Nm, [b \in Blk(D) |-> NormLen(D, b)], NormBounds(D))
    [] c = "P09.values" -> o.status = "ok" =>
          \A b \in Blk(D) : D.blocks[b].t \in {1, 2} =>
             [i \in 1..Len(o.x[b]) |-> o.x[b][i] * D.blocks[b].uR[i]] = [i \in 1..Len(D.blocks[b].v) |-> r.sc * D.blocks[b].v[i]]
    [] c = "P09.structured" -> o.status = "ok" =>
          \A b \in Blk(D) : D.blocks[b].t \in {3, 4} =>
             Settled(D.W[D.blocks[b].w], D.U[D.blocks[b].u], D.blocks[b].v, o.x[b], r.sc)
    [] c = "P09.systematic" -> o.status = "ok" => o.s = [i \in 1..NSys(D) |-> 0]
    [] c = "P09.ks" -> o.status = "ok" =>
          \A mu \in Mus(D) : [i \in 1..D.Nm[mu] |-> o.ks[mu][i] * D.kr[mu][i]] = [i \in 1..D.Nm[mu] |-> r.sc * D.ks[mu][i]]
    [] c = "P09.back" -> o.status = "ok" /\ \A b \in Blk(D) : o.v[b] = Back(D, b, r.x[b], r.s)
    [] c = "P09.back-ks" -> o.status = "ok" => \A mu \in Mus(D) : o.ks[mu] = [i \in 1..D.Nm[mu] |-> r.ks[mu][i] * D.kr[mu][i]]
    [] c = "P09.back-index" -> o.status = "ok" =>
          LET sizes == [b \in Blk(D) |-> Len(D.blocks[b].v)] IN IndexOk(D, o, D.Nm, sizes, Sums(sizes)) /\ o.carried /\ o.same
    (* there and back again: exact where the kernels allow it                         *)
    [] c = "P09.round" -> o.status = "ok" /\
          /\ \A b \in Blk(D) : \A i \in 1..Len(D.blocks[b].v) :
                \/ D.blocks[b].t \in {3, 4} /\ NewCols(D.W[D.blocks[b].w], i) = {}
                \/ o.v[b][i] = D.blocks[b].v[i]
          /\ o.ks = D.ks
    [] c = "P10.index" -> o.status = "ok" =>
          LET n == [mu \in Mus(D) |-> r.n]
              sizes == [b \in Blk(D) |-> r.n]
          IN IndexOk(D, o, n, sizes, Sums(sizes))
    [] c = "P10.fill" -> o.status = "ok" => \A b \in Blk(D) : o.v[b] = Fill(D.blocks[b].v, r.n)
    [] c = "P10.fill-ks" -> o.status = "ok" => \A mu \in Mus(D) : o.ks[mu] = Fill(D.ks[mu], r.n)
    [] c = "P11.measurand" -> o.status = "ok" =>
          LET q == RowsOf(D, r.sel) IN o.m = [i \in 1..Len(q) |-> [p \in 1..2 |-> Measure(D, D.A, q[i][1], p, q[i][2])]]
    [] c = "P11.derivatives" -> (o.status = "ok" /\ r.J) => DerivOk(r, D)
    [] c = "P11.uncertainty" -> (o.status = "ok" /\ r.cov) =>
          LET q == RowsOf(D, r.sel) IN o.u2 = [i \in 1..Len(q) |-> [p \in 1..2 |-> MeasureVar(D, D.A, r.V, q[i][1], p, q[i][2])]]
    [] c = "P11.adjusted" -> o.status = "ok" =>
          LET q == RowsOf(D, r.sel) IN o.m = [i \in 1..Len(q) |-> [p \in 1..2 |-> Adjusted(D, D.A, q[i][1], p, q[i][2])]]
    [] c = "P11.adjusted-derivatives" -> (o.status = "ok" /\ r.dA) =>
          LET q == RowsOf(D, r.sel) IN o.d = [i \in 1..Len(q) |-> [p \in 1..2 |-> D.h[D.Im[q[i][1]][p]]]]
    [] c = "P11.K" -> o.status = "ok" =>
          LET q == RowsOf(D, r.sel) IN o.k = [i \in 1..Len(q) |-> KOf(D, D.A, q[i][1], q[i][2])]

Mine(ev) == {c \in Clauses(ev) : SubSeq(c, 1, 3) = PROP}
TraceInit == l = 1 /\ ds = <<>>
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
             /\ \A c \in Mine(r.ev) : IF Holds(c, r, ds) THEN TRUE ELSE Report(l, c)
             /\ ds' = IF r.ev = "data" THEN r.D ELSE ds
        /\ l' = l + 1
        /\ (l = Len(Trace) => Finished(l))
TraceSpec == TraceInit /\ [][Step]_tvars
==================================================================================
