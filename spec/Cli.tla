------------------------------------- MODULE Cli -------------------------------------
(* Command lines of the solver ("solver") and of the tools that show its results       *)
(* ("plot"): what a sequence of options asks for.                                       *)
EXTENDS Integers, Sequences, FiniteSets

None == "<none>"
Valued(tool) == {"j", "i", "s", "o", "log"} \cup (IF tool = "solver" THEN {"spc", "pc", "sgn", "gn", "mode"} ELSE {})
Flags(tool) == {"verbose", "quiet", "list", "version"} \cup (IF tool = "solver" THEN {"nocov"} ELSE {})
AllValued == Valued("solver")
Modes == {"normal", "setup_pc", "setup_trans2ind"}

(* reading, option by option: what stops the command stops it where it is met           *)
Start == [st |-> "reading", unknown |-> FALSE, loud |-> "normal", nocov |-> FALSE, given |-> [o \in AllValued |-> None]]
Consume(tool, s, t) ==
  CASE s.st # "reading" -> s
    [] t.o \notin Valued(tool) \cup Flags(tool) -> [s EXCEPT !.unknown = TRUE]
    [] t.o = "list" -> [s EXCEPT !.st = "listed"]
    [] t.o = "version" -> [s EXCEPT !.st = "version"]
    [] t.o \in {"verbose", "quiet"} -> IF s.loud \in {"normal", t.o} THEN [s EXCEPT !.loud = t.o] ELSE [s EXCEPT !.st = "refused"]
    [] t.o = "nocov" -> [s EXCEPT !.nocov = TRUE]
    [] t.o = "mode" /\ t.v \notin Modes -> [s EXCEPT !.st = "refused"]
    [] OTHER -> [s EXCEPT !.given[t.o] = t.v]

(* at the end of the line: a job file, or the three directories and sensor, not both     *)
Has(s, o) == s.given[o] # None
WithJob == {"i", "s", "o", "spc", "pc", "sgn", "gn"}
Close(s) == IF s.st # "reading" THEN s
            ELSE IF \/ s.unknown
                    \/ Has(s, "j") /\ \E o \in WithJob : Has(s, o)
                    \/ ~ Has(s, "j") /\ \E o \in {"i", "s", "o"} : ~ Has(s, o)
                 THEN [s EXCEPT !.st = "refused"] ELSE [s EXCEPT !.st = "accepted"]
RECURSIVE ReadFrom(_, _, _)
ReadFrom(tool, s, argv) == IF argv = <<>> THEN Close(s) ELSE ReadFrom(tool, Consume(tool, s, Head(argv)), Tail(argv))
Read(tool, argv) == ReadFrom(tool, Start, argv)

(* The same, of the line as a whole                                                     *)
At(argv, o) == {k \in 1..Len(argv) : argv[k].o = o}
Max(S) == CHOOSE k \in S : \A j \in S : j <= k
Min(S) == CHOOSE k \in S : \A j \in S : k <= j
LastOf(argv, o) == IF At(argv, o) = {} THEN None ELSE argv[Max(At(argv, o))].v
Stops(tool, argv) ==
  {k \in 1..Len(argv) : \/ argv[k].o \in {"list", "version"}
                        \/ argv[k].o = "mode" /\ tool = "solver" /\ argv[k].v \notin Modes
                        \/ argv[k].o \in {"verbose", "quiet"} /\ \E j \in 1..(k - 1) : argv[j].o \in {"verbose", "quiet"} \ {argv[k].o}}
Outcome(tool, argv) ==
  IF Stops(tool, argv) # {} THEN LET o == argv[Min(Stops(tool, argv))].o IN IF o = "list" THEN "listed" ELSE IF o = "version" THEN "version" ELSE "refused"
  ELSE LET got == {argv[k].o : k \in 1..Len(argv)} IN
       IF \/ ~ got \subseteq Valued(tool) \cup Flags(tool)
          \/ "j" \in got /\ got \cap WithJob # {}
          \/ "j" \notin got /\ ~ {"i", "s", "o"} \subseteq got
       THEN "refused" ELSE "accepted"

(* What an accepted line runs. jobs: the job files that exist (path, whether they have   *)
(* the section, the paths and sensor in it). A job's paths are taken as absolute.        *)
NoJob == [has |-> FALSE, dir |-> None, sensor |-> None, out |-> None]
JobAt(jobs, path) == IF \E j \in 1..Len(jobs) : jobs[j].path = path THEN jobs[CHOOSE j \in 1..Len(jobs) : jobs[j].path = path] ELSE NoJob
Absolute(cwd, p) == IF SubSeq(p, 1, 1) = "/" THEN p ELSE cwd \o "/" \o p
Show(s) == CASE s.loud = "quiet" -> 0 [] s.loud = "verbose" -> 2 [] OTHER -> 1
Plan(s, jobs, cwd) ==
  LET j == JobAt(jobs, s.given["j"])
      job == Has(s, "j")
  IN [able |-> ~ job \/ j.has,
      dir |-> IF ~ job THEN s.given["i"] ELSE IF j.has THEN Absolute(cwd, j.dir) ELSE None,
      out |-> IF ~ job THEN s.given["o"] ELSE IF j.has THEN Absolute(cwd, j.out) ELSE None,
      sensor |-> IF ~ job THEN s.given["s"] ELSE j.sensor,
      pc |-> s.given["pc"], spc |-> s.given["spc"], gn |-> s.given["gn"], sgn |-> s.given["sgn"],
      show |-> Show(s), cov |-> ~ s.nocov]

(* Names of the output                                                                   *)
Output(c) == "harm_" \o c.software \o "_" \o c.version \o "_" \o c.tag \o "_" \o c.job \o "_" \o c.ds \o ".nc"
=====================================================================================
