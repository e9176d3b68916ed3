------------------------------------ MODULE CliMC ------------------------------------
(* Every line of up to MaxLen options of Menu: the reading machine against the line as   *)
(* a whole.                                                                              *)
EXTENDS Cli, TLC, Json
CONSTANT MaxLen
T(o, v) == [o |-> o, v |-> v]
Menu == {T("j", "A"), T("i", "A"), T("s", "A"), T("o", "A"), T("pc", "A"), T("sgn", "A"), T("mode", "normal"), T("mode", "fast"),
         T("nocov", ""), T("verbose", ""), T("quiet", ""), T("list", ""), T("version", ""), T("odd", ""), T("i", "B"), T("log", "A")}
VARIABLES tool, argv, s
vars == <<tool, argv, s>>
Init == tool \in {"solver", "plot"} /\ argv = <<>> /\ s = Start
Next == /\ Len(argv) < MaxLen
        /\ \E t \in Menu : argv' = Append(argv, t) /\ s' = Consume(tool, s, t)
        /\ UNCHANGED tool
Spec == Init /\ [][Next]_vars
z == Close(s)
Agrees == z.st = Outcome(tool, argv)
LastWins == z.st = "accepted" => \A o \in AllValued : z.given[o] = IF o \in Valued(tool) THEN LastOf(argv, o) ELSE None
Loudness == z.st = "accepted" => /\ (z.loud = "quiet") = (At(argv, "quiet") # {})
                                 /\ (z.loud = "verbose") = (At(argv, "verbose") # {})
                                 /\ z.nocov = (At(argv, "nocov") # {})
Sufficient == z.st = "accepted" => LET p == Plan(z, <<>>, "/") IN p.able => p.dir # None /\ p.out # None /\ p.sensor # None
Emit == (Len(argv) <= 2 \/ (z.st = "accepted" /\ Len(argv) = MaxLen)) => PrintT("@@" \o ToJson([tool |-> tool, argv |-> argv]))
=====================================================================================
