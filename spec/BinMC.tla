---------------------------------- MODULE BinMC ----------------------------------
(* Every datum of the range is in exactly one of the bins.                             *)
EXTENDS Stats, TLC, Json
CONSTANTS MaxBins, Width, MaxData
VARIABLES lo, hi, n, X
Init == /\ lo \in 0..1 /\ hi \in (lo + 1)..Width /\ n \in 1..MaxBins
        /\ X \in UNION {[1..k -> 0..Width] : k \in 1..MaxData}
Spec == Init /\ [][UNCHANGED <<lo, hi, n, X>>]_<<lo, hi, n, X>>
Once == \A k \in 1..Len(X) : Cardinality({i \in 1..n : k \in InBin(X, lo, hi, n, i)}) = IF lo <= X[k] /\ X[k] <= hi THEN 1 ELSE 0
Emit == (Len(X) = MaxData /\ (X[1] * 3 + lo + hi + n) % 5 = 0) => PrintT("@@" \o ToJson([kind |-> "bins", lo |-> lo, hi |-> hi, n |-> n, X |-> X]))
==================================================================================
