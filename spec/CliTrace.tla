----------------------------------- MODULE CliTrace -----------------------------------
(* Recorded commands.                                                                    *)
(*   command  a line of options in a directory with datasets and job files; the solver   *)
(*            is a stand-in that records what it is given                                 *)
(*   op       a run of the operator on a dataset, with a stand-in likewise                *)
(*   solved   a command with the real solver, on data that parameters explain exactly     *)
EXTENDS Cli, TraceLib
VARIABLE l
Clauses(ev) == CASE ev = "command" -> {"P22.ended", "P22.listed", "P22.version", "P22.only", "P22.data", "P22.solver", "P22.output", "P22.told"}
                 [] ev = "op" -> {"P22.ran", "P22.data", "P22.solver", "P22.output"}
                 [] ev = "solved" -> {"P22.ran", "P22.solved", "P22.covariance", "P22.kept"}
                 [] OTHER -> {}
DataAt(r, path) == r.data[CHOOSE k \in 1..Len(r.data) : r.data[k].path = path]
Known(r, path) == \E k \in 1..Len(r.data) : r.data[k].path = path
Relative(r, p) == IF SubSeq(p, 1, 1) = "/" THEN SubSeq(p, Len(r.cwd) + 2, Len(p)) ELSE p
(* the parameters of sensor n in the sensor data named s                                 *)
Par(r, s, n) == r.reg[CHOOSE k \in 1..Len(r.reg) : r.reg[k].sensor = s /\ r.reg[k].of = n].par
P(r) == IF r.ev = "op" THEN r.plan ELSE Plan(Read(r.tool, r.argv), r.jobs, r.cwd)
Able(r) == LET p == P(r) IN p.able /\ p.sensor \in Range1(r.names) /\ (r.ev = "op" \/ r.tool = "solver" => Known(r, Relative(r, p.dir)))
Runs(r) == r.ev = "op" \/ (Read(r.tool, r.argv).st = "accepted" /\ Able(r))
Id(r) == r.cfg
Told(r) == <<P(r).dir, P(r).out>>
Holds(c, r) ==
  LET o == r.obs
      z == IF r.ev = "command" THEN Read(r.tool, r.argv) ELSE Start
  IN
  CASE c = "P22.ended" -> IF z.st \in {"listed", "version"} \/ Runs(r) THEN o.code = 0 ELSE o.code # 0
    [] c = "P22.ran" -> o.code = 0
    [] c = "P22.listed" -> z.st = "listed" => o.lines = r.names
    [] c = "P22.version" -> z.st = "version" => o.lines = <<"v" \o r.cfg.version>>
    (* whatever does not run calls no solver and leaves no output                          *)
    [] c = "P22.only" -> ~ Runs(r) => o.calls = <<>> /\ o.files = <<>>
    [] c = "P22.data" -> Runs(r) => LET p == P(r) IN
          /\ Len(o.calls) = 1
          /\ LET d == DataAt(r, Relative(r, p.dir))
                 q == o.calls[1]
             IN IF r.ev = "command" /\ r.tool = "plot" THEN q.dir = p.dir /\ q.out = p.out /\ q.sensor = p.sensor
                ELSE /\ q.sensors = d.sensors /\ q.M = d.M /\ q.files = d.files
                     /\ \A n \in Range1(d.sensors) : SelectSeq(q.a, LAMBDA x : x[1] = n) = [k \in 1..Len(Par(r, p.sensor, n)) |-> <<n, Par(r, p.sensor, n)[k]>>]
    [] c = "P22.solver" -> Runs(r) /\ Len(o.calls) = 1 => LET p == P(r)
                                                            q == o.calls[1]
          IN /\ q.show = p.show
             /\ (r.ev = "op" \/ r.tool = "solver") =>
                  /\ q.pc = p.pc /\ q.spc = p.spc /\ q.gn = p.gn /\ q.sgn = p.sgn
                  /\ q.cov = p.cov
    [] c = "P22.output" -> Runs(r) /\ (r.ev = "op" \/ r.tool = "solver") => LET p == P(r)
                                                                             g == Id(r) IN
          /\ o.files = <<Output(g)>> /\ o.where = Relative(r, p.out) /\ o.residuals = DataAt(r, Relative(r, p.dir)).files
          /\ Range1(o.attrs) = {<<"software", g.software>>, <<"software_version", g.version>>, <<"software_tag", g.tag>>, <<"job_id", g.job>>,
                                <<"matchup_dataset", g.ds \o "__">>}
          /\ o.par = o.calls[1].result /\ o.extra = o.calls[1].extra
    (* quiet commands say nothing; others name the directories, in a given log as well       *)
    [] c = "P22.told" -> Runs(r) /\ r.tool = "solver" =>
          /\ (z.loud = "quiet" => o.told = <<>> /\ o.logged = <<>>)
          /\ (z.loud # "quiet" => (IF Has(z, "log") THEN o.logged ELSE o.told) = Told(r))
    [] c = "P22.solved" -> o.code = 0 => /\ Len(o.par) = Len(r.truth)
                                         /\ \A k \in 1..Len(o.par) : o.par[k] - r.truth[k] \in (0 - r.tol)..r.tol
    [] c = "P22.covariance" -> o.code = 0 => o.zero = ~ r.cov
    [] c = "P22.kept" -> o.code = 0 => Range1(o.kept) = Range1(r.keeps)
Mine(ev) == {c \in Clauses(ev) : SubSeq(c, 1, 3) = PROP}
TraceInit == l = 1
Step == /\ l <= Len(Trace)
        /\ \A c \in Mine(Trace[l].ev) : IF Holds(c, Trace[l]) THEN TRUE ELSE Report(l, c)
        /\ l' = l + 1
        /\ (l = Len(Trace) => Finished(l))
TraceSpec == TraceInit /\ [][Step]_l
=======================================================================================
