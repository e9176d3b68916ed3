--------------------------------- MODULE PlotsMC ---------------------------------
(* A viewer that keeps what it has evaluated. Quantities are requested in any order;   *)
(* harmonised measurands need the parameters of the result, which the dataset has only  *)
(* while they are evaluated. Whatever came before, a request is answered with values    *)
(* of the right parameters, and the dataset is left as it was.                           *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT MaxLen
Q == {"L1n", "L2n", "L1h", "L2h", "nn", "hh", "nh"}
Needs == [L1n |-> {}, L2n |-> {}, L1h |-> {}, L2h |-> {}, nn |-> {"L1n", "L2n"}, hh |-> {"L1h", "L2h"}, nh |-> {"L2n", "L1h"}]
VARIABLES asked, kept, params, pc, stack
vars == <<asked, kept, params, pc, stack>>
(* which parameters kept values are of: none, those of the dataset, those of the result   *)
Init == asked = <<>> /\ kept = [q \in Q |-> "no"] /\ params = "dataset" /\ pc = "idle" /\ stack = <<>>
Ask == /\ pc = "idle" /\ Len(asked) < MaxLen
       /\ \E q \in Q : asked' = Append(asked, q) /\ stack' = <<q>>
       /\ pc' = "work" /\ UNCHANGED <<kept, params>>
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Open == {n \in Needs[Top] : kept[n] = "no"}
Work == /\ pc = "work" /\ stack # <<>>
        /\ IF kept[Top] # "no" THEN stack' = Pop /\ UNCHANGED <<kept, params, pc>>
           ELSE IF Open # {} THEN (\E n \in Open : stack' = Append(stack, n)) /\ UNCHANGED <<kept, params, pc>>
           ELSE IF Top \in {"L1h", "L2h"} THEN params' = "result" /\ pc' = "evaluate" /\ UNCHANGED <<kept, stack>>
           ELSE /\ kept' = [kept EXCEPT ![Top] = IF Needs[Top] \cap {"L1h", "L2h"} # {} THEN kept["L1h"] ELSE "data"]
                /\ stack' = Pop /\ UNCHANGED <<params, pc>>
        /\ UNCHANGED asked
Evaluate == /\ pc = "evaluate"                     \* both sensors at once
            /\ kept' = [kept EXCEPT !["L1h"] = params, !["L2h"] = params]
            /\ pc' = "restore" /\ UNCHANGED <<asked, params, stack>>
Restore == pc = "restore" /\ params' = "dataset" /\ pc' = "work" /\ stack' = Pop /\ UNCHANGED <<asked, kept>>
Return == pc = "work" /\ stack = <<>> /\ pc' = "idle" /\ UNCHANGED <<asked, kept, params, stack>>
Next == Ask \/ Work \/ Evaluate \/ Restore \/ Return
Spec == Init /\ [][Next]_vars
Right(q) == CASE q \in {"L1h", "L2h", "hh", "nh"} -> "result" [] OTHER -> "data"
Kept == \A q \in Q : kept[q] \in {"no", Right(q)}
Answered == pc = "idle" => /\ params = "dataset"
                           /\ \A i \in 1..Len(asked) : kept[asked[i]] = Right(asked[i])
Emit == (pc = "idle" /\ asked # <<>>) => PrintT("@@" \o ToJson([asked |-> asked]))
==================================================================================
