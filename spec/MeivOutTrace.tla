------------------------------- MODULE MeivOutTrace -------------------------------
(* What the Fortran software writes: dates, file names, parameter and residual data sets. *)
EXTENDS Calendar, TraceLib
VARIABLE l

Clauses(ev) ==
  CASE ev = "time"   -> {"P20.done", "P20.form", "P20.date", "P20.clock"}
    [] ev = "params" -> {"P20.done", "P20.names", "P20.file", "P20.parameters", "P20.sensors", "P20.statistics", "P20.attributes", "P20.units"}
    [] ev = "resid"  -> {"P20.done", "P20.names", "P20.file", "P20.residuals", "P20.attributes", "P20.units"}
    [] OTHER -> {}

(* --- names ------------------------------------------------------------------------------ *)
Stem(r) == "harm_" \o r.c.sw \o "_" \o r.obs.version \o "_" \o r.obs.tag \o "_" \o r.c.job_id \o "_" \o r.c.dataset
           \o "_" \o r.given.begin \o "_" \o r.given.end
ParName(r) == (IF r.c.par = "" THEN Stem(r) ELSE r.c.par) \o ".nc"
ResName(r, si, sj) == (IF r.c.res = "" THEN Stem(r) \o "_res" ELSE r.c.res) \o "_" \o si \o "_" \o sj \o ".nc"
SensorNames(r) == IF r.ev = "params" THEN <<"S1", "S 2">> ELSE <<r.given.si, r.given.sj>>

(* --- attributes ---------------------------------------------------------------------------- *)
T(name, v) == [name |-> name, text |-> v, num |-> NONE]
N(name, v) == [name |-> name, text |-> "", num |-> v]
Common(r) == {T("software", r.c.sw), T("software_version", r.obs.version), T("software_tag", r.obs.tag), T("job", r.c.job),
              T("job_id", r.c.job_id), T("uuid", r.given.uuid), T("matchup_dataset", r.c.dataset),
              T("matchup_dataset_begin", r.given.begin), T("matchup_dataset_end", r.given.end)}
Totals(s) == {N("number_of_matchups", s[1] * 1024), N("cost", s[2]), N("cost_reduced", s[3]), N("cost_p_value", s[4]),
              N("cost_matchup", s[5]), N("cost_sensors", s[6]), N("K_res_mean", s[7]), N("K_res_sdev", s[8])}
Expected(r) == Common(r) \cup IF r.ev = "params" THEN Totals(r.given.total)
                              ELSE {T("matchup_dataset_uuid", r.given.muuid), T("sensor_1_name", r.given.si), T("sensor_2_name", r.given.sj)}
(* --- units ---------------------------------------------------------------------------------- *)
InUnit == {"K_res", "K_res_uncertainty", "measurand1", "measurand2", "measurand1_uncertainty_tel", "measurand2_uncertainty_tel",
           "measurand1_uncertainty_cal", "measurand2_uncertainty_cal", "K_res_mean", "K_res_sdev"}
UnitOf(r, name) == CASE name = "t" -> "seconds since 1970-1-1 0:0:0"
                     [] r.c.unit = "" -> ""
                     [] name = "K_res_weights" -> "1 / " \o r.c.unit
                     [] name \in InUnit -> r.c.unit
                     [] OTHER -> ""
Column(s, k) == [n \in 1..Len(s) |-> s[n][k]]
Got(r) == r.obs.status = "done"

Holds(c, r) ==
  LET o == r.obs
      g == r.given
  IN
  CASE c = "P20.done" -> o.status = "done"
    [] c = "P20.form" -> Len(o.t) = Len(r.days) /\ \A k \in 1..Len(o.t) : Len(o.t[k]) = 6
    [] c = "P20.date" -> \A k \in 1..Len(o.t) : Len(o.t[k]) = 6 =>
          LET t == o.t[k] IN ValidDate(t[1], t[2], t[3]) /\ DayNumber(t[1], t[2], t[3]) = r.days[k]
    [] c = "P20.clock" -> \A k \in 1..Len(o.t) : Len(o.t[k]) = 6 =>
          LET t == o.t[k] IN t[4] \in 0..23 /\ t[5] \in 0..59 /\ t[6] \in 0..59 /\ 3600 * t[4] + 60 * t[5] + t[6] = r.secs[k]
    [] c = "P20.names" -> Got(r) => /\ o.parname = ParName(r)
                                    /\ o.resname = ResName(r, SensorNames(r)[1], SensorNames(r)[2])
    [] c = "P20.file" -> Got(r) => o.files = <<IF r.ev = "params" THEN ParName(r) ELSE ResName(r, g.si, g.sj)>>
    [] c = "P20.parameters" -> Got(r) =>
          /\ o.got.x = g.x /\ o.got.xu = g.xu /\ o.got.xc = g.xc /\ o.got.xr = g.xr /\ o.got.off = g.off /\ o.got.scale = g.scale
          /\ o.got.names = g.names
    [] c = "P20.sensors" -> Got(r) =>
          /\ o.got.ids = g.ids /\ o.got.cnt = g.cnt /\ o.got.o = g.o /\ o.got.y = g.y /\ o.got.snames = g.snames
          /\ o.got.pairs = g.pairs /\ o.got.uuids = g.uuids
    [] c = "P20.statistics" -> Got(r) =>
          /\ o.got.m = Column(g.stats, 1) /\ o.got.cost = Column(g.stats, 2) /\ o.got.reduced = Column(g.stats, 3)
          /\ o.got.mean = Column(g.stats, 7) /\ o.got.sdev = Column(g.stats, 8)
    [] c = "P20.residuals" -> Got(r) => o.got.t = g.t /\ o.got.v = g.v
    [] c = "P20.attributes" -> Got(r) => Expected(r) \subseteq Range1(o.got.attrs)
    [] c = "P20.units" -> Got(r) => \A k \in 1..Len(o.got.units) : o.got.units[k][2] = UnitOf(r, o.got.units[k][1])

Mine(ev) == {c \in Clauses(ev) : SubSeq(c, 1, 3) = PROP}
TraceInit == l = 1
Step == /\ l <= Len(Trace)
        /\ \A c \in Mine(Trace[l].ev) : IF Holds(c, Trace[l]) THEN TRUE ELSE Report(l, c)
        /\ l' = l + 1
        /\ (l = Len(Trace) => Finished(l))
TraceSpec == TraceInit /\ [][Step]_l
===================================================================================
