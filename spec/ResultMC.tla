--------------------------------- MODULE ResultMC ---------------------------------
(* A result is put together, saved file by file, its directory listed in any order,    *)
(* and opened. A file is named by its pair of sensors and, from the second one of the   *)
(* pair, a number.                                                                     *)
EXTENDS Result, TLC, Json
CONSTANTS Sens, MaxSeries, MaxM

VARIABLES R, phase, dir, listing, opened
vars == <<R, phase, dir, listing, opened>>
Ms(s) == IF s = 1 THEN 1 ELSE 2                 \* numbers of variables

Init == R = [F |-> <<>>, hasX |-> TRUE, X |-> <<>>, k |-> <<>>] /\ phase = "build" /\ dir = <<>> /\ listing = <<>> /\ opened = <<>>
Add == /\ phase = "build" /\ Len(R.F) < MaxSeries
       /\ \E a, b \in Sens, M \in 1..MaxM :
            /\ a # b
            /\ LET mu == Len(R.F) + 1 IN
               R' = [R EXCEPT !.F = Append(@, [s |-> <<a, b>>, M |-> M, m |-> <<Ms(a), Ms(b)>>]),
                              !.X = Append(@, [p \in 1..2 |-> [r \in 1..M |-> [c \in 1..Ms(<<a, b>>[p]) |-> <<mu, p, r, c>>]]]),
                              !.k = Append(@, [r \in 1..M |-> <<mu, r>>])]
       /\ UNCHANGED <<phase, dir, listing, opened>>
Start == /\ phase = "build" /\ R.F # <<>> /\ phase' = "save"
         /\ R' \in {R, [R EXCEPT !.hasX = FALSE]}
         /\ UNCHANGED <<dir, listing, opened>>
NameOf(mu) == <<R.F[mu].s[1], R.F[mu].s[2], Cardinality({j \in 1..mu : R.F[j].s = R.F[mu].s})>>
Write == /\ phase = "save" /\ Len(dir) < Len(R.F)
         /\ LET mu == Len(dir) + 1 IN dir' = Append(dir, [name |-> NameOf(mu), file |-> ResFile(R, mu)])
         /\ UNCHANGED <<R, phase, listing, opened>>
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j}
List == /\ phase = "save" /\ Len(dir) = Len(R.F) /\ phase' = "list"
        /\ \E p \in Perms(Len(dir)) : listing' = [i \in 1..Len(dir) |-> dir[p[i]]]
        /\ UNCHANGED <<R, dir, opened>>
Less(a, b) == \/ a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) \/ (a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3])
Sorted(l) == [i \in 1..Len(l) |-> CHOOSE f \in {l[j] : j \in 1..Len(l)} :
                 Cardinality({j \in 1..Len(l) : Less(l[j].name, f.name)}) = i - 1]
Open == /\ phase = "list" /\ phase' = "open"
        /\ opened' = [i \in 1..Len(listing) |-> Sorted(listing)[i].file]
        /\ UNCHANGED <<R, dir, listing>>
Next == Add \/ Start \/ Write \/ List \/ Open
Spec == Init /\ [][Next]_vars

(* no file replaces another                                                            *)
Distinct == \A i, j \in 1..Len(dir) : dir[i].name = dir[j].name => i = j
(* all residuals are there, once                                                        *)
Complete == phase = "open" =>
    /\ SameBag(opened, ResFiles(R))
    /\ SameBag(OpenedKs(opened), FlatSeq(R.k))
    /\ R.hasX => SameBag(OpenedValues(opened), ValuesOf(AsSeries(ResFiles(R), TRUE), LAMBDA f : f.X))
(* whatever the order of the listing                                                    *)
ListingIrrelevant == phase = "open" => opened = [i \in 1..Len(dir) |-> Sorted(dir)[i].file]
(* a result opened and saved again has the same files                                    *)
Again == phase = "open" => SameBag([i \in 1..Len(opened) |-> opened[i]], [i \in 1..Len(dir) |-> dir[i].file])
Emit == phase = "save" /\ dir = <<>> => PrintT("@@" \o ToJson([F |-> R.F, hasX |-> R.hasX]))
====================================================================================
