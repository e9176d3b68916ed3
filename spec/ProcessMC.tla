-------------------------------- MODULE ProcessMC --------------------------------
(* The sampler and the change of variables as machines, one match-up at a time, on    *)
(* all overlapping windows of scan lines.                                             *)
EXTENDS Process, TLC, Json
CONSTANTS MaxM, MaxPos, MaxK, Vals

VARIABLES pos, kern, k, sel, met, y, v, phase
vars == <<pos, kern, k, sel, met, y, v, phase>>
Init == pos = <<>> /\ kern = 1 /\ k = 1 /\ sel = {} /\ met = {} /\ y = <<>> /\ v = <<>> /\ phase = "build"
Add == /\ phase = "build" /\ Len(pos) < MaxM
       /\ \E x \in 0..MaxPos : /\ pos' = Append(pos, x)
                               /\ \E z \in Vals : v' = Append(v, z - 1)
       /\ UNCHANGED <<kern, k, sel, met, y, phase>>
(* every scan line is used by some match-up *)
Compact(n) == UNION {pos[i]..(pos[i] + n - 1) : i \in 1..Len(pos)} = 0..(MaxP(RngP(pos)) + n - 1)
Start == /\ phase = "build" /\ pos # <<>>
         /\ \E n \in 1..MaxK : /\ Compact(n) /\ kern' = n
                               /\ y' = [j \in 1..(MaxP(RngP(pos)) + n) |-> 0]
         /\ phase' = "sample" /\ UNCHANGED <<pos, k, sel, met, v>>
W == [row |-> [i \in 1..(Len(pos) + 1) |-> (i - 1) * kern],
      col |-> [i \in 1..(Len(pos) * kern) |-> pos[((i - 1) \div kern) + 1] + ((i - 1) % kern)],
      val |-> [i \in 1..(Len(pos) * kern) |-> 1]]
D == [Nm |-> <<Len(pos)>>, blocks |-> <<[mu |-> 1, t |-> 3, w |-> 1]>>, W |-> <<W>>]
(* the sampler: takes a match-up whose columns are all unused *)
Sample == /\ phase = "sample" /\ k <= Len(pos)
          /\ IF RngP(RowCols(W, k)) \cap met = {}
             THEN sel' = sel \cup {k} /\ met' = met \cup RngP(RowCols(W, k))
             ELSE UNCHANGED <<sel, met>>
          /\ k' = k + 1 /\ UNCHANGED <<pos, kern, y, v, phase>>
EndSample == /\ phase = "sample" /\ k > Len(pos) /\ phase' = "sampled"
             /\ UNCHANGED <<pos, kern, k, sel, met, y, v>>
(* the change of variables: lines met for the first time take up what the others leave *)
Change == /\ phase = "sampled" /\ phase' = "change" /\ k' = 1 /\ met' = {} /\ UNCHANGED <<pos, kern, sel, y, v>>
Row == /\ phase = "change" /\ k <= Len(pos)
       /\ LET c == RowCols(W, k)
              new == RngP(c) \ met
              rest == kern * v[k] - SumP([j \in 1..kern |-> IF c[j] \in met THEN y[c[j]] ELSE 0])
          IN /\ met' = met \cup new
             /\ new # {} => (rest % Cardinality(new) = 0)          \* stays on the integer grid
             /\ y' = IF new = {} THEN y ELSE [j \in DOMAIN y |-> IF j \in new THEN rest \div Cardinality(new) ELSE y[j]]
       /\ k' = k + 1 /\ UNCHANGED <<pos, kern, sel, v, phase>>
Done == phase = "change" /\ k > Len(pos) /\ phase' = "done" /\ UNCHANGED <<pos, kern, k, sel, met, y, v>>
Next == Add \/ Start \/ Sample \/ EndSample \/ Change \/ Row \/ Done
Spec == Init /\ [][Next]_vars

SampledOk == phase = "sampled" => /\ sel = Greedy(D, 1, 1, {})
                                  /\ Independent(D, 1, sel) /\ Maximal(D, 1, sel)
(* every row that brought a new line is met exactly; so is every one if each brings one *)
RowMeets == phase = "done" => \A r \in 1..Len(pos) :
               NewCols(W, r) # {} => SumP([j \in 1..kern |-> y[RowCols(W, r)[j]]]) = kern * v[r]
AllMet == phase = "done" => met = 1..NCols(W)
SettleAgree == (phase = "done" /\ \A r \in 2..Len(pos) : Cardinality(NewCols(W, r)) \in {0, 1, kern}) =>
                  y = Settle(W, v, 1, [j \in 1..NCols(W) |-> 0])
SettledAgree == phase = "done" =>
    Settled([W EXCEPT !.val = [i \in DOMAIN W.val |-> WS]], [j \in DOMAIN y |-> 1], [i \in 1..Len(v) |-> kern * v[i]], y, 1)
(* sampling keeps no more than one match-up per window length *)
Bound == phase = "sampled" => Cardinality(sel) * kern <= NCols(W)
Emit == (phase = "sampled" /\ \A i \in 1..Len(v) : v[i] = -1) => PrintT("@@" \o ToJson([pos |-> pos, kern |-> kern]))
==================================================================================
