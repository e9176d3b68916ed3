------------------------------- MODULE StatsTrace -------------------------------
(* Recorded averages (times 2520) and squared deviations (times 3600).                 *)
EXTENDS Stats, TraceLib
VARIABLE l
Clauses(ev) == CASE ev = "average" -> {"P21.done", "P21.periods", "P21.average"}
                 [] ev = "bin" -> {"P21.done", "P21.centres", "P21.binned"}
                 [] OTHER -> {}
(* the mean of the data at S, of which there are at most ten                            *)
MeanOk(v, S, x) == IF S = {} THEN x = NAN ELSE Cardinality(S) > 10 \/ x * Cardinality(S) = 2520 * Total(v, S)
DevOk(v, S, x) == LET m == Cardinality(S)
                      sq == [k \in 1..Len(v) |-> v[k] * v[k]]
                  IN IF S = {} THEN x = NAN ELSE m > 6 \/ x * m * m = 3600 * (m * Total(sq, S) - Total(v, S) * Total(v, S))
Holds(c, r) ==
  LET o == r.obs IN
  CASE c = "P21.done" -> o.status = "ok" /\ o.same
    [] c = "P21.periods" -> o.status = "ok" =>
          /\ Len(o.times) = PeriodCount(r.kind, r.times)
          /\ \A p \in 1..Len(o.times) : /\ Period(r.kind, o.times[p]) = FirstPeriod(r.kind, r.times) + p - 1
                                        /\ o.times[p] = Floor(r.kind, o.times[p])
    [] c = "P21.average" -> o.status = "ok" =>
          /\ Len(o.averages) = PeriodCount(r.kind, r.times)
          /\ \A p \in 1..Len(o.averages) : MeanOk(r.data, InPeriod(r.kind, r.times, p), o.averages[p])
    [] c = "P21.centres" -> o.status = "ok" => o.centres = [i \in 1..r.n |-> 2 * r.n * r.lo + (2 * i - 1) * (r.hi - r.lo)]
    [] c = "P21.binned" -> o.status = "ok" =>
          /\ Len(o.averages) = r.n /\ Len(o.devs) = r.n
          /\ \A i \in 1..r.n : LET S == InBin(r.X, r.lo, r.hi, r.n, i) IN MeanOk(r.Y, S, o.averages[i]) /\ DevOk(r.Y, S, o.devs[i])
Mine(ev) == {c \in Clauses(ev) : SubSeq(c, 1, 3) = PROP}
TraceInit == l = 1
Step == /\ l <= Len(Trace)
        /\ \A c \in Mine(Trace[l].ev) : IF Holds(c, Trace[l]) THEN TRUE ELSE Report(l, c)
        /\ l' = l + 1
        /\ (l = Len(Trace) => Finished(l))
TraceSpec == TraceInit /\ [][Step]_l
=================================================================================
