-------------------------------- MODULE ResultTrace --------------------------------
(* Recorded saving and opening of results.                                             *)
(*   saved    a result R as given, and the files found afterwards (in sorted order)     *)
(*   closed   a result closed (0), or left with its block (1), by an error (2)         *)
(*   opened   those files (dir), read independently, and the object opened               *)
EXTENDS Result, TraceLib
VARIABLE l

Clauses(ev) ==
  CASE ev = "saved"  -> {"P15.saved", "P15.files", "P15.output", "P15.given"}
    [] ev = "opened" -> {"P15.opened", "P15.residuals", "P15.index", "P15.values", "P15.result"}
    [] ev = "found"  -> {"P15.found"}
    [] ev = "closed" -> {"P15.closed"}
    [] OTHER -> {}

SameAttrs(a, b) == Range1(a) = Range1(b)
OutOk(o, R) == /\ o.par = R.par /\ o.sen = R.sen /\ o.cov = R.cov /\ o.stats = R.stats
               /\ SameAttrs(o.attrs, R.attrs) /\ SameAttrs(o.extra, R.extra)
Holds(c, r) ==
  LET o == r.obs IN
  CASE c \in {"P15.saved", "P15.opened"} -> o.status = "ok"
    [] c = "P15.files" -> o.status = "ok" => SameBag(o.files, IF r.res THEN ResFiles(r.R) ELSE <<>>)
    [] c = "P15.output" -> o.status = "ok" => o.n = 1 /\ OutOk(o.out, r.R)
    [] c = "P15.given" -> o.status = "ok" => o.same
    [] c = "P15.result" -> o.status = "ok" => OutOk(o.out, r.R)
    [] c = "P15.residuals" -> o.status = "ok" =>
          IF r.res /\ r.files # <<>> THEN o.hask /\ o.ks = OpenedKs(r.files) /\ o.hasv = r.R.hasX
          ELSE ~ o.hask /\ ~ o.hasv
    [] c = "P15.values" -> o.status = "ok" => (o.hasv => o.values = OpenedValues(r.files))
    [] c = "P15.index" -> o.status = "ok" => (o.hask =>
          LET G == AsSeries(r.files, r.R.hasX)
              x == o.idx
          IN /\ x.sensors = Sensors(G) /\ x.Im = Im(G) /\ x.Nm = Nm(G) /\ x.cNm = cNm(G)
             /\ r.R.hasX => LET B == BlockSeq(G) IN
                  /\ x.sensor_ms = SensorMs(G)
                  /\ x.n_cov = [i \in 1..Len(B) |-> B[i][1]]
                  /\ x.n_mu = [i \in 1..Len(B) |-> B[i][2]]
                  /\ x.n_sensor = [i \in 1..Len(B) |-> SensorNo(G, G[B[i][2]].s[B[i][3]]) - 1]
                  /\ x.N_var = NVar(G) /\ x.idx = BlockBounds(G))
    [] c = "P15.closed" -> Closed(r.how, o)
    (* none or several output files in a directory are refused                          *)
    [] c = "P15.found" -> IF r.n = 1 THEN o.status = "ok" ELSE o.status = "OSError"

Mine(ev) == {c \in Clauses(ev) : SubSeq(c, 1, 3) = PROP}
TraceInit == l = 1
Step == /\ l <= Len(Trace)
        /\ \A c \in Mine(Trace[l].ev) : IF Holds(c, Trace[l]) THEN TRUE ELSE Report(l, c)
        /\ l' = l + 1
        /\ (l = Len(Trace) => Finished(l))
TraceSpec == TraceInit /\ [][Step]_l
====================================================================================
