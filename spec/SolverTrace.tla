------------------------------- MODULE SolverTrace -------------------------------
(* Recorded work of the solvers on one problem after another.                        *)
(*   data     the problem (sc: grid of the results)                                  *)
(*   f        residuals at a point; jx, jt: products with the Jacobian and its       *)
(*            transpose, preconditioned; un: variables of a sensor in a series       *)
(*   run      the iteration with prescribed steps, residuals and gradients           *)
(*   solve    the iteration on a problem with an exact solution                      *)
(*   cov      covariance of the parameters; state: saved and opened                   *)
(*   pc, pcs  the preconditioner's residuals, Jacobian, covariance; its solution     *)
EXTENDS Solver, TraceLib
VARIABLES l, ds
tvars == <<l, ds>>

Clauses(ev) ==
  CASE ev = "f"     -> {"P12.f", "P14.resumed-f"}
    [] ev = "jx"    -> {"P12.jx", "P14.resumed"}
    [] ev = "jt"    -> {"P12.jt"}
    [] ev = "un"    -> {"P12.variables", "P12.variables-compiled"}
    [] ev = "hx"    -> {"P12.hx"}
    [] ev = "start" -> {"P12.start"}
    [] ev = "run"   -> {"P13.status", "P13.iterations", "P13.parameters", "P13.cost", "P13.residuals", "P13.systematic", "P13.covariance"}
    [] ev = "solve" -> {"P13.solution"}
    [] ev = "eiv"   -> {"P13.pipeline", "P13.began", "P13.reported", "P13.filed", "P13.kept"}
    [] ev = "cov"   -> {"P14.covariance"}
    [] ev = "state" -> {"P14.state"}
    [] ev = "pc"    -> {"P14.pc-covariance", "P14.pc-residuals", "P14.pc-jacobian"}
    [] ev = "pcs"   -> {"P14.pc-solution"}
    [] OTHER -> {}

Mus(D) == 1..Len(D.Nm)
Near(x, y, e) == Abs(x) < 2000000000 /\ Abs(y) < 2000000000 /\ Abs(x - y) <= e
FOk(r, D) == LET o == r.obs
                 f == FVar(r.P, r.V)
             IN /\ o.x = [b \in 1..Len(f.x) |-> [i \in 1..Len(f.x[b]) |-> D.sc * f.x[b][i]]]
                /\ o.s = [i \in 1..Len(f.s) |-> D.sc * f.s[i]]
                /\ o.k = [mu \in Mus(D) |-> [i \in 1..D.Nm[mu] |-> FK(D, r.P, r.ks, D.sc, mu, i)]]
JxOk(r, D) == LET o == r.obs
                  d == [r.d EXCEPT !.a = MulS(r.S, r.d.a)]
              IN /\ o.x = [b \in 1..Len(d.x) |-> [i \in 1..Len(d.x[b]) |-> D.sc * d.x[b][i]]]
                 /\ o.s = [i \in 1..Len(d.s) |-> D.sc * d.s[i]]
                 /\ o.k = [mu \in Mus(D) |-> [i \in 1..D.Nm[mu] |-> JK(D, r.P, d, D.sc, mu, i)]]
JtOk(r, D) == LET o == r.obs
                  pulls == Pulls(D, r.P, r.w, D.sc)
              IN /\ o.x = JTx(D, r.P, r.w, D.sc, pulls)
                 /\ o.s = JTs(D, r.P, r.w, D.sc, pulls)
                 /\ o.a = JTa(D, r.P, r.w, D.sc, r.S, pulls)

(* ---- the iteration ---------------------------------------------------------------- *)
FlatP(p) == Flat(p.x) \o p.s
StateAt(r, k) == [i \in 1..Len(r.x0) |-> r.x0[i] + SumP([j \in 1..k |-> r.its[j].d[i]])]
Its(r) == [k \in 1..Len(r.its) |-> [cost |-> Cost(r.its[k].r), nd |-> Largest(r.its[k].d), nx |-> Largest(StateAt(r, k)),
                                    ng |-> 2 * Largest(r.its[k].g)]]
LastOf(r) == Stops(Cost(r.r0), Its(r), 1, Len(r.its))
NV(D) == NormBounds(D)[Len(D.blocks) + 1]
Piece(v, lo, n) == [i \in 1..n |-> v[lo + i]]
ResX(D, res) == [b \in 1..Len(D.blocks) |-> Piece(res, NormBounds(D)[b], NormLen(D, b))]
ResS(D, res) == Piece(res, NV(D) - NSys(D), NSys(D))
ResK(D, res, mu) == Piece(res, NV(D) + SumToP(D.Nm, mu - 1), D.Nm[mu])
SysSensor(D, j) == D.sensors[D.blocks[CHOOSE b \in 1..Len(D.blocks) : D.blocks[b].t \in {2, 4} /\ D.blocks[b].si = j].s]

(* ---- covariance: T[j] solves  J'J T[j] = e_j  (units 1/r.u), its parameters are column j *)
CovOk(r, D) == LET n == Len(r.P.a)
                   ident == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
               IN \A j \in 1..n :
                    LET t == r.T[j]
                        w == [x |-> t.x, s |-> t.s,
                              k |-> [mu \in Mus(D) |-> [i \in 1..D.Nm[mu] |-> (JK(D, r.P, t, r.sc, mu, i) + r.sc \div 2) \div r.sc]]]
                        pulls == Pulls(D, r.P, w, r.sc)
                        hx == JTx(D, r.P, w, r.sc, pulls)
                        hs == JTs(D, r.P, w, r.sc, pulls)
                        ha == JTa(D, r.P, w, r.sc, ident, pulls)
                        one == r.sc * r.u
                    IN /\ \A b \in 1..Len(t.x) : \A i \in 1..Len(t.x[b]) : Near(hx[b][i], 0, one \div 8)
                       /\ \A i \in 1..Len(t.s) : Near(hs[i], 0, one \div 8)
                       /\ \A i \in 1..n : Near(ha[i], IF i = j THEN one ELSE 0, one \div 8)
                       /\ \A i \in 1..n : Near(r.obs.V[i][j], t.a[i], 2 + Abs(t.a[i]) \div 100)

(* ---- preconditioner: data with independent errors only; results in units of 1/sc^2 -- *)
PcVar(D, P, mu, r) == D.sc * D.sc + SumP([p \in 1..2 |->
    LET s == D.Im[mu][p]
        j == DAdj(D, s, Meas(D, P, mu, p, r)) * (D.sc \div D.kr[mu][r])
    IN SumP([c \in 1..D.ms[s] |-> LET q == j * DX(D, P, s, c) * D.blocks[BlockOf(D, mu, s, c)].uR[r] IN q * q])])
PcJa(D, P, mu, r, j) == SumP([p \in 1..2 |->
    LET s == D.Im[mu][p] IN
    IF ~ D.ref[s] /\ \E i \in 1..Len(D.apos[s]) : D.apos[s][i] = j
    THEN LET i == CHOOSE i \in 1..Len(D.apos[s]) : D.apos[s][i] = j
         IN (Sgn(p) * DAdj(D, s, Meas(D, P, mu, p, r)) * DA(D, P, mu, s, r, i) * (D.sc \div D.kr[mu][r])) \div WS
    ELSE 0])
RowsAll(D) == Flat([mu \in Mus(D) |-> [i \in 1..D.Nm[mu] |-> <<mu, i>>]])

Holds(c, r, D) ==
  LET o == r.obs IN
  CASE c = "P12.start" -> o.status = "ok" /\ o.x = r.x /\ o.a = r.a /\ o.S = r.S
    [] c \in {"P12.f", "P14.resumed-f"} -> o.status = "ok" /\ FOk(r, D)
    [] c = "P12.jx" -> o.status = "ok" /\ JxOk(r, D)
    [] c = "P14.resumed" -> o.status = "ok" /\ JxOk(r, D)
    [] c = "P12.jt" -> o.status = "ok" /\ JtOk(r, D)
    [] c = "P12.hx" -> o.status = "ok" /\ o.same
    [] c \in {"P12.variables", "P12.variables-compiled"} ->
          LET x == IF c = "P12.variables" THEN o.x ELSE o.y
          IN o.status = "ok" /\ x = [i \in 1..D.Nm[r.mu] |-> Vars(D, r.P, r.mu, r.s, i)]
    [] c = "P13.status" -> o.status = "ok"
    [] c = "P13.iterations" -> o.status = "ok" => o.n = LastOf(r)
    [] c = "P13.parameters" -> o.status = "ok" => o.a = SubSeq(StateAt(r, LastOf(r)), NV(D) + 1, Len(r.x0))
    [] c = "P13.cost" -> o.status = "ok" =>
          o.cost = Cost(r.its[LastOf(r)].r) /\ o.dof = NV(D) - SumP(D.Nm) - (Len(r.x0) - NV(D))
    [] c = "P13.residuals" -> o.status = "ok" =>
          LET res == r.its[LastOf(r)].r IN
          /\ \A b \in 1..Len(D.blocks) : o.v[b] = Back(D, b, ResX(D, res)[b], ResS(D, res))
          /\ \A mu \in Mus(D) : o.ks[mu] = [i \in 1..D.Nm[mu] |-> ResK(D, res, mu)[i] * D.kr[mu][i]]
    [] c = "P13.systematic" -> o.status = "ok" =>
          IF NSys(D) = 0 THEN o.sys = <<>> /\ o.who = <<>>
          ELSE o.sys = SubSeq(StateAt(r, LastOf(r)), NV(D) - NSys(D) + 1, NV(D)) /\ o.who = [j \in 1..NSys(D) |-> SysSensor(D, j)]
    [] c = "P13.covariance" -> o.status = "ok" => \A i \in 1..Len(o.V) : \A j \in 1..Len(o.V) : o.V[i][j] = 0
    (* exact data: the parameters behind them are found, at no cost                   *)
    [] c \in {"P13.solution", "P13.pipeline", "P14.pc-solution"} ->
          /\ o.status = "ok"
          /\ \A mu \in Mus(D) : \A i \in 1..D.Nm[mu] : KAt(D, r.P, mu, i) * (D.sc \div D.kr[mu][i]) = WS * r.ks[mu][i]
          /\ Len(o.a) = Len(r.P.a) /\ \A i \in 1..Len(o.a) : Near(o.a[i], r.u * r.P.a[i], r.eps)
          /\ c # "P14.pc-solution" => Near(o.cost, 0, r.eps) /\ \A b \in 1..Len(o.v) : \A i \in 1..Len(o.v[b]) : Near(o.v[b][i], 0, r.eps)
          /\ c = "P13.pipeline" => o.sensors = r.sensors
    (* the iteration began once, at the state, parameters and preconditioner it had to *)
    [] c = "P13.began" -> o.status = "ok" =>
          /\ Len(o.start) = 1
          /\ LET s == o.start[1] IN
             /\ s.x = r.start.x /\ s.s = r.start.s
             /\ Len(s.a) = Len(r.start.a) /\ \A i \in 1..Len(s.a) : Near(s.a[i], r.start.a[i], 1)
             /\ Len(s.S) = Len(s.a) /\ \A i \in 1..Len(s.S) : \A j \in 1..Len(s.S[i]) : Near(s.S[i][j], r.start.S[i][j], 2 + Abs(r.start.S[i][j]) \div 500)
             /\ r.start.det => \A i \in 1..Len(s.a) : Near(s.a[i], r.u * r.P.a[i], r.eps)
    (* what is reported beside: the layout of the original data, the covariance unless it is   *)
    (* left to another, the systematic errors, each with its sensor; where the last state is kept *)
    [] c = "P13.reported" -> o.status = "ok" =>
          /\ o.idx /\ o.cov = r.opt.cov /\ (o.cov => o.square)
          /\ Len(o.sys) = NSys(D) /\ \A j \in 1..NSys(D) : Near(o.sys[j], r.u * r.P.s[j], r.eps)
          /\ o.who = [j \in 1..NSys(D) |-> SysSensor(D, j)]
    [] c = "P13.filed" -> o.status = "ok" => o.file = [status |-> "ok", sys |-> o.sys, who |-> o.who]
    [] c = "P13.kept" -> o.status = "ok" => o.saved = <<IF r.opt.gn THEN "last" ELSE "none", IF r.opt.dir THEN "last" ELSE "none">>
    [] c = "P14.covariance" -> o.status = "ok" /\ CovOk(r, D)
    [] c = "P14.state" -> o.status = "ok" /\ o.x = r.x /\ o.S = r.S /\ o.v = r.v /\ o.idx
    [] c = "P14.pc-covariance" -> o.status = "ok" =>
          LET q == RowsAll(D) IN \A i \in 1..Len(q) : \A j \in 1..Len(q) :
             LET want == IF i = j THEN PcVar(D, r.P, q[i][1], q[i][2]) ELSE 0
             IN Near(o.VK[i][j], want, 1 + PcVar(D, r.P, q[i][1], q[i][2]) \div 1000)
    [] c = "P14.pc-residuals" -> o.status = "ok" /\
          LET q == RowsAll(D) IN \A i \in 1..Len(q) : Near(o.f[i], FK(D, r.P, r.ks, D.sc, q[i][1], q[i][2]), 1 + Abs(o.f[i]) \div 1000)
    [] c = "P14.pc-jacobian" -> o.status = "ok" =>
          LET q == RowsAll(D) IN \A i \in 1..Len(q) : \A j \in 1..Len(r.P.a) :
             Near(o.J[i][j], PcJa(D, r.P, q[i][1], q[i][2], j), 1 + Abs(o.J[i][j]) \div 1000)

Mine(ev) == {c \in Clauses(ev) : SubSeq(c, 1, 3) = PROP}
TraceInit == l = 1 /\ ds = <<>>
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
             /\ \A c \in Mine(r.ev) : IF Holds(c, r, ds) THEN TRUE ELSE Report(l, c)
             /\ ds' = IF r.ev = "data" THEN r.D ELSE ds
        /\ l' = l + 1
        /\ (l = Len(Trace) => Finished(l))
TraceSpec == TraceInit /\ [][Step]_tvars
==================================================================================
