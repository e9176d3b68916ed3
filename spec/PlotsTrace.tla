------------------------------- MODULE PlotsTrace -------------------------------
(* Recorded plots, as they were handed to the plotting library.                        *)
(*   tool      all plots of the plotting tool for a dataset and a result                *)
(*   viewed    plots and values requested of a viewer, in an order                      *)
(*   compared  plots of the comparison tool                                             *)
(*   sampled   scatter plots of a dataset of more than 10000 match-ups                  *)
EXTENDS Plots, TraceLib
VARIABLE l
Clauses(ev) == CASE ev = "tool" -> {"P24.done", "P24.files", "P24.points", "P24.labels"}
                 [] ev = "viewed" -> {"P24.done", "P24.files", "P24.points", "P24.labels", "P24.values", "P24.kept"}
                 [] ev = "compared" -> {"P24.done", "P24.comparison"}
                 [] ev = "sampled" -> {"P24.done", "P24.sample"}
                 [] OTHER -> {}
Asks(r) == IF r.ev = "tool" THEN ToolAsks(r.D) ELSE r.asks
Seen(r, p) == LET is(f) == f.path = p.path IN SelectSeq(r.obs.figs, is)
Quantities(D, q) == Join([mu \in Mus0(D) |-> Vals(D, q, mu)])
Holds(c, r) ==
  LET o == r.obs IN
  CASE c = "P24.done" -> o.status = "ok"
    [] c = "P24.kept" -> o.status = "ok" => o.same
    [] c = "P24.files" -> o.status = "ok" => {o.figs[i].path : i \in 1..Len(o.figs)} = {p.path : p \in Wanted(r.D, Asks(r))}
    [] c = "P24.points" -> o.status = "ok" => \A p \in Wanted(r.D, Asks(r)) : LET s == Seen(r, p) IN s # <<>> => Shows(r.D, p, s[1])
    [] c = "P24.labels" -> o.status = "ok" => \A p \in Wanted(r.D, Asks(r)) : LET s == Seen(r, p) IN s # <<>> => Labelled(r.D, p, s[1])
    [] c = "P24.values" -> o.status = "ok" => \A i \in 1..Len(o.values) : o.values[i].v = Quantities(r.D, o.values[i].q)
    [] c = "P24.comparison" -> o.status = "ok" =>
          /\ {o.figs[i].path : i \in 1..Len(o.figs)} = {"compare_calibration." \o r.D.sensors[s] \o ".pdf" : s \in 1..Len(r.D.sensors)}
          /\ LET S == Simulated(r.D)
             IN \A i \in 1..Len(o.figs) : \E mu \in Mus0(r.D), p \in 1..2 :
                  /\ o.figs[i].path = "compare_calibration." \o r.D.sensors[r.D.Im[mu][p]] \o ".pdf"
                  /\ Contains(o.figs[i].title, r.D.sensors[r.D.Im[mu][p]])
                  /\ Len(o.figs[i].series) = 1 /\ ComparesAs(S, mu, p, r.V, o.figs[i].series[1])
    (* a series has its share of 10000 points, each one of its match-ups               *)
    [] c = "P24.sample" -> o.status = "ok" =>
          LET tot == SumP(r.Nm) IN
          \A i \in 1..Len(o.figs) : LET f == o.figs[i] IN
             /\ Len(f.series) = Len(r.Nm)
             /\ \A mu \in 1..Len(r.Nm) : LET s == f.series[mu]
                                             n == Len(s.r)
                                             want == (r.Nm[mu] * 625) \div (tot \div 16)
                                         IN /\ n >= want - 12 /\ n <= want + 12 /\ Len(s.y) = n
                                            /\ \A k \in 1..n : s.r[k] \in 1..r.Nm[mu] /\ s.y[k] = r.y[f.q][mu][s.r[k]]
Mine(ev) == {c \in Clauses(ev) : SubSeq(c, 1, 3) = PROP}
TraceInit == l = 1
Step == /\ l <= Len(Trace)
        /\ \A c \in Mine(Trace[l].ev) : IF Holds(c, Trace[l]) THEN TRUE ELSE Report(l, c)
        /\ l' = l + 1
        /\ (l = Len(Trace) => Finished(l))
TraceSpec == TraceInit /\ [][Step]_l
=================================================================================
