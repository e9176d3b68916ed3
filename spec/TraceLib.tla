------------------------------- MODULE TraceLib -------------------------------
(* What every trace specification shares: the recorded events, the property    *)
(* under check, and the report of a clause that an event does not satisfy.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP  == IOEnv.PROP

(* Special values of the recorder (everything else is an exact integer). *)
NONE    == -2000000001      \* no value
NAN     ==  2000000001      \* not a number
INEXACT ==  2000000003      \* not representable on the recorder's grid

Report(i, c) == PrintT("@@" \o ToJson([l |-> i, clause |-> c]))
(* of the number of the last event (a constant expression would be evaluated, and print, before the first) *)
Finished(n)  == PrintT("@@" \o ToJson([done |-> n]))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Range1(s) == {s[i] : i \in 1..Len(s)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x
Map1(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

(* an object closed, or left with its block, keeps no data; an error in the block goes on    *)
Closed(how, o) == /\ o.status = (IF how = 2 THEN "ValueError" ELSE "ok")
                  /\ o.had > 0 /\ o.left = <<>> /\ o.closed /\ o.same
==============================================================================
