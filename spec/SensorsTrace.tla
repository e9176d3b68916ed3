-------------------------------- MODULE SensorsTrace --------------------------------
(* Recorded sensor registry and evaluations of sensor models.                           *)
(*   names    the names listed; set: the description registered under one               *)
(*   call     a sensor evaluated for a match-up dataset                                 *)
(*   exact    a model at small numbers (see Sensors)                                    *)
(*   constants  the constants of an infrared sounder, and the coefficients file of its channel *)
(*   points   the microwave model at, and half way between, its calibration targets       *)
(*   radiometer  the microwave model at small counts                                    *)
(*   slope    a model at ordinary numbers: derivatives, and differences of the          *)
(*            measurand, in common units                                                *)
EXTENDS Sensors, TraceLib
VARIABLE l

Clauses(ev) ==
  CASE ev = "names" -> {"P17.names"}
    [] ev = "set"   -> {"P17.description"}
    [] ev = "call"  -> {"P17.call"}
    [] ev = "exact" -> {"P17.measurand", "P17.derivatives", "P17.unchanged"}
    [] ev = "radiometer" -> {"P17.measurand", "P17.unchanged"}
    [] ev = "slope" -> {"P17.slopes"}
    [] ev = "kept"  -> {"P17.unchanged"}
    [] ev = "constants" -> {"P17.constants"}
    [] ev = "points" -> {"P17.calibration"}
    [] OTHER -> {}
Abs(v) == IF v < 0 THEN 0 - v ELSE v
Near(p, q, e) == Abs(p) < 2000000000 /\ Abs(q) < 2000000000 /\ Abs(p - q) <= e

SetOk(r) == LET o == r.obs IN
    /\ o.status = "ok"
    /\ o.sensors # <<>> /\ \A i, j \in 1..Len(o.sensors) : o.sensors[i].name = o.sensors[j].name => i = j
    /\ \E i \in 1..Len(o.sensors) : o.sensors[i].ref
    /\ \E i \in 1..Len(o.sensors) : ~ o.sensors[i].ref
    /\ \A i \in 1..Len(o.sensors) : LET s == o.sensors[i] IN
         /\ s.m = (IF s.ref THEN 1 ELSE NVars(r.name))
         /\ s.n = (IF s.ref THEN 0 ELSE NPars(r.name))
         /\ s.labels = s.m /\ s.names = s.m /\ s.distinct

DerivOk(r) == LET J == r.obs.J
                  x == r.x
                  d == D(x) * D(x)
                  c == DCounts(r.name, x, r.b)
                  p == DPars(r.name, x)
                  m == NVars(r.name)
                  rad == DRad(r.name, x, r.b)
              IN /\ Len(J) = m + Len(p)
                 /\ SubSeq(J, 1, 3) = c
                 /\ IF IsHIRS(r.name)
                    THEN Near(J[4], rad * r.slope, Abs(rad) + 2) /\ J[5] = 0 - 16 * d
                    ELSE J[4] = rad /\ (Timed(r.name) => J[5] = B4(r.name, r.b) * d)
                 /\ SubSeq(J, m + 1, Len(J)) = p

Holds(c, r) ==
  LET o == r.obs IN
  CASE c = "P17.names" -> o.status = "ok" /\ Range1(o.names) = Sets \cup HIRSs /\ Len(o.names) = Cardinality(Sets \cup HIRSs)
    [] c = "P17.description" -> SetOk(r)
    (* a value for each match-up; derivatives by each variable and parameter, unless a reference *)
    [] c = "P17.call" -> o.status = "ok" /\ o.finite /\ o.M = r.M /\ o.J = (IF r.ref THEN <<>> ELSE <<r.M, NVars(r.name) + NPars(r.name)>>)
                         /\ (r.ref => o.same)
    [] c = "P17.measurand" -> o.status = "ok" /\ o.L = (IF r.ev = "radiometer" THEN MeasMW(r.x, r.a1, r.pol, r.g) ELSE Meas(r.name, r.x, r.b))
    [] c = "P17.derivatives" -> o.status = "ok" /\ DerivOk(r)
    [] c = "P17.slopes" -> o.status = "ok" /\ Len(o.J) = NVars(r.name) + NPars(r.name) /\ \A k \in 1..Len(o.J) : Near(o.J[k], o.slope[k], 2000)
    (* each sensor has the constants its own row of its own channel's table gives *)
    [] c = "P17.constants" -> o.status = "ok" /\ \A i \in 1..Len(o.sensors) :
         \E k \in 1..Len(r.table) : r.table[k].name = o.sensors[i].name /\ r.table[k].c = o.sensors[i].c
    (* a count of the warm target measures its radiance, one of space that of space, whatever the non-linearity; in between, linearly without one *)
    [] c = "P17.calibration" -> o.status = "ok" /\ Near(o.ict, r.ict, 20) /\ Near(o.space, r.space, 20)
                                /\ Near(2 * o.half, r.ict + r.space, 40)
    [] c = "P17.unchanged" -> o.status = "ok" /\ o.same

Mine(ev) == {c \in Clauses(ev) : SubSeq(c, 1, 3) = PROP}
TraceInit == l = 1
Step == /\ l <= Len(Trace)
        /\ \A c \in Mine(Trace[l].ev) : IF Holds(c, Trace[l]) THEN TRUE ELSE Report(l, c)
        /\ l' = l + 1
        /\ (l = Len(Trace) => Finished(l))
TraceSpec == TraceInit /\ [][Step]_l
=====================================================================================
