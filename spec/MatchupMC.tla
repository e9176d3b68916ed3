------------------------------- MODULE MatchupMC -------------------------------
(* The opening of a match-up dataset as a machine. A dataset of up to MaxFiles   *)
(* files is put together, then read: sensors are registered as the files name    *)
(* them, the list of blocks is built by the reader's loops, and every column is  *)
(* copied to the block that the list assigns to it.                              *)
EXTENDS Matchup, TLC, Json
CONSTANTS Names, MaxFiles, MaxM, MaxCols, EmitMod

VARIABLES files, phase, sens, ms, blist, k, mem, writes
vars == <<files, phase, sens, ms, blist, k, mem, writes>>

Cols == [Names -> 1..MaxCols]
Init == /\ files = <<>> /\ phase = "build" /\ sens = <<>> /\ ms = <<>>
        /\ blist = <<>> /\ k = 0 /\ mem = <<>> /\ writes = 0

(* a sensor has the same number of columns in all files *)
SameM(F) == \A i, j \in 1..Len(F), p, q \in 1..2 : F[i].s[p] = F[j].s[q] => F[i].m[p] = F[j].m[q]
AddFile == /\ phase = "build" /\ Len(files) < MaxFiles
           /\ \E a, b \in Names, M \in 1..MaxM, x, y \in 1..MaxCols :
                 /\ a # b
                 /\ files' = Append(files, [s |-> <<a, b>>, M |-> M, m |-> <<x, y>>])
                 /\ SameM(files')
           /\ UNCHANGED <<phase, sens, ms, blist, k, mem, writes>>
Start == /\ phase = "build" /\ files # <<>> /\ phase' = "sensors" /\ k' = 1
         /\ UNCHANGED <<files, sens, ms, blist, mem, writes>>
(* one action per sensor name read *)
Register == /\ phase = "sensors" /\ k <= 2 * Len(files)
            /\ LET f == files[((k - 1) \div 2) + 1]
                   p == ((k - 1) % 2) + 1
               IN IF \E i \in 1..Len(sens) : sens[i] = f.s[p]
                  THEN UNCHANGED <<sens, ms>>
                  ELSE sens' = Append(sens, f.s[p]) /\ ms' = Append(ms, f.m[p])
            /\ k' = k + 1 /\ UNCHANGED <<files, phase, blist, mem, writes>>
EndSensors == /\ phase = "sensors" /\ k > 2 * Len(files) /\ phase' = "blocks" /\ k' = 1
              /\ UNCHANGED <<files, sens, ms, blist, mem, writes>>
No(name) == CHOOSE i \in 1..Len(sens) : sens[i] = name
MaxMs == CHOOSE x \in {ms[i] : i \in 1..Len(ms)} : \A i \in 1..Len(ms) : ms[i] <= x
(* one action per (variable number, series): the blocks of its two sides *)
MakeBlocks == /\ phase = "blocks" /\ k <= MaxMs * Len(files)
              /\ LET c  == ((k - 1) \div Len(files)) + 1
                     mu == ((k - 1) % Len(files)) + 1
                     one(p) == IF ms[No(files[mu].s[p])] >= c THEN <<[c |-> c, mu |-> mu, p |-> p, n |-> files[mu].M]>> ELSE <<>>
                 IN blist' = blist \o one(1) \o one(2)
              /\ k' = k + 1 /\ UNCHANGED <<files, phase, sens, ms, mem, writes>>
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s).n + Total(Tail(s))
EndBlocks == /\ phase = "blocks" /\ k > MaxMs * Len(files) /\ phase' = "copy" /\ k' = 1
             /\ mem' = [q \in 1..Total(blist) |-> <<>>]
             /\ UNCHANGED <<files, sens, ms, blist, writes>>
Copies == FlatSeq(FlatSeq([mu \in 1..Len(files) |-> [p \in 1..2 |-> [c \in 1..files[mu].m[p] |-> <<mu, p, c>>]]]))
Copy == /\ phase = "copy" /\ k <= Len(Copies)
        /\ LET x == Copies[k]
               i == CHOOSE i \in 1..Len(blist) : blist[i].mu = x[1] /\ blist[i].p = x[2] /\ blist[i].c = x[3]
               from == Total(SubSeq(blist, 1, i - 1))
               n == files[x[1]].M
           IN /\ mem' = [q \in DOMAIN mem |-> IF q > from /\ q <= from + n
                                             THEN [mu |-> x[1], side |-> x[2], c |-> x[3], row |-> q - from] ELSE mem[q]]
              /\ writes' = writes + n
        /\ k' = k + 1 /\ UNCHANGED <<files, phase, sens, ms, blist>>
Done == /\ phase = "copy" /\ k > Len(Copies) /\ phase' = "open" /\ k' = 0
        /\ UNCHANGED <<files, sens, ms, blist, mem, writes>>
Next == AddFile \/ Start \/ Register \/ EndSensors \/ MakeBlocks \/ EndBlocks \/ Copy \/ Done
Spec == Init /\ [][Next]_vars

(* ---- properties ---------------------------------------------------------------- *)
Opened == phase = "open"
SensorsAgree == Opened => sens = Sensors(files) /\ ms = SensorMs(files)
BlocksAgree == Opened => [i \in 1..Len(blist) |-> <<blist[i].c, blist[i].mu, blist[i].p>>] = Blocks(files)
BlockSeqAgree == Opened => BlockSeq(files) = Blocks(files)
(* every file cell is held at exactly one position, and every position holds one *)
Bijection == Opened =>
    LET cells == UNION {{[mu |-> mu, side |-> p, c |-> c, row |-> r] : c \in 1..files[mu].m[p], r \in 1..files[mu].M} :
                           mu \in 1..Len(files), p \in 1..2}
    IN /\ {mem[q] : q \in DOMAIN mem} = cells
       /\ Cardinality(cells) = Cardinality(DOMAIN mem)
       /\ writes = Cardinality(cells)
ValuesAgree == Opened => \A q \in DOMAIN mem : mem[q] = CellOf(files, q)
CumulativeOk == Opened => /\ cNm(files)[Len(files) + 1] * 1 = Total([mu \in 1..Len(files) |-> [n |-> files[mu].M]])
                          /\ BlockBounds(files)[Len(blist) + 1] = Total(blist)
(* never overwritten *)
WriteOnce == [][\A q \in DOMAIN mem : (q \in DOMAIN mem' /\ mem[q] # <<>>) => mem'[q] = mem[q]]_vars

(* scenarios for the conformance run *)
Emit == phase = "sensors" /\ k = 1 /\ EmitMod > 0 => PrintT("@@" \o ToJson([files |-> files]))
================================================================================
