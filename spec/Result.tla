---------------------------------- MODULE Result ----------------------------------
(* A harmonisation result and the files it is kept in: one output file, and one       *)
(* residual file per match-up series F[mu] (see Matchup.tla) with the residuals       *)
(* X[mu][p][row][c] of its variables (or none) and k[mu][row] of its adjustments.      *)
EXTENDS Matchup

ResFile(R, mu) == [s |-> R.F[mu].s, M |-> R.F[mu].M,
                   X |-> IF R.hasX THEN R.X[mu] ELSE <<>>, k |-> R.k[mu]]
ResFiles(R) == [mu \in 1..Len(R.F) |-> ResFile(R, mu)]
(* the residuals that files in a certain order hold                                    *)
AsSeries(files, hasX) == [i \in 1..Len(files) |->
    [s |-> files[i].s, M |-> files[i].M,
     m |-> IF hasX THEN <<Len(files[i].X[1][1]), Len(files[i].X[2][1])>> ELSE <<0, 0>>, X |-> files[i].X, k |-> files[i].k]]
OpenedValues(files) == LET G == AsSeries(files, TRUE) IN ValuesOf(G, LAMBDA f : f.X)
OpenedKs(files) == FlatSeq([i \in 1..Len(files) |-> files[i].k])
Count(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s[i], s) = Count(s[i], t)
====================================================================================
