--------------------------------- MODULE MeivMC ---------------------------------
(* Reading match-up data sets one after another: matrices are kept in lists, match-ups *)
(* refer to them by position, parameters and match-ups are numbered consecutively.       *)
(* Whatever is read, every column of every match-up data set refers to the matrices of   *)
(* its own data set, side and column, until matrices are dropped.                        *)
EXTENDS Meiv, TLC, Json
CONSTANTS MaxFiles, Types, Ms, Steps, Mod
Sensors == 1..3
R == <<1, 2, 2>>                               \* columns of the sensors
VARIABLES pc, common, cov, files, b, d, v, w, mu, at
vars == <<pc, common, cov, files, b, d, v, w, mu, at>>
Pairs == {p \in Sensors \X Sensors : p[1] < p[2]}
FileSet == UNION {[i : {p[1]}, j : {p[2]}, M : Ms, s : Steps, ut : [1..R[p[1]] -> Types] \X [1..R[p[2]] -> Types]] : p \in Pairs}
(* the structured columns of a file, in order of sides and columns: each with its own matrices *)
Structured(f) == LET n1 == Len(f.ut[1]) IN
  SelectSeq([k \in 1..(n1 + Len(f.ut[2])) |-> IF k <= n1 THEN <<1, k>> ELSE <<2, k - n1>>],
            LAMBDA x : f.ut[x[1]][x[2]] \in {3, 4})
UseOf(f, p, c) == LET S == Structured(f) IN CHOOSE k \in 1..Len(S) : S[k] = <<p, c>>

Init == /\ pc = "open" /\ common \in BOOLEAN /\ cov \in BOOLEAN /\ files = <<>> /\ mu = <<>> /\ at = <<1, 1>>
        /\ b = <<>> /\ d = <<>> /\ v = <<>> /\ w = <<>>
Open == /\ pc = "open" /\ Len(files) < MaxFiles
        /\ \E f \in FileSet :
             /\ \A k \in 1..Len(files) : <<files[k].i, files[k].j>> # <<f.i, f.j>>
             /\ LET n == Len(files) + 1
                    S == Structured(f)
                    last == IF n = 1 THEN 0 ELSE mu[n - 1].final
                IN /\ files' = Append(files, f)
                   /\ v' = v \o [k \in 1..Len(S) |-> <<n, "u", k>>]
                   /\ w' = w \o [k \in 1..Len(S) |-> <<n, "w", k>>]
                   /\ mu' = Append(mu, [m |-> SampleCount(f.M, f.s), start |-> last + 1, final |-> last + SampleCount(f.M, f.s),
                                        base |-> <<Len(v), Len(w)>>, ui |-> <<<<>>, <<>>>>, c |-> <<<<>>, <<>>>>,
                                        v |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>])
        /\ pc' = "column" /\ at' = <<1, 1>> /\ UNCHANGED <<common, cov, b, d>>
Column == /\ pc = "column"
          /\ LET n == Len(files)
                 f == files[n]
                 p == at[1]
                 c == at[2]
                 t == f.ut[p][c]
                 me == <<n, p, c>>
                 put(x, q) == [x EXCEPT ![p] = Append(@, q)]
                 g == mu[n]
                 k == IF t \in {3, 4} THEN UseOf(f, p, c) ELSE 0
                 isB == t = 2 /\ common
                 isD == t = 1 \/ (t = 2 /\ ~ common)
             IN /\ b' = IF isB THEN Append(b, me) ELSE b
                /\ d' = IF isD THEN Append(d, me) ELSE d
                /\ mu' = [mu EXCEPT ![n] = [g EXCEPT !.ui = put(@, IF isD THEN 1 ELSE IF isB THEN 2 ELSE 3),
                                            !.c = put(@, IF isB THEN Len(b) + 1 ELSE IF isD THEN Len(d) + 1 ELSE 0),
                                            !.v = put(@, IF k = 0 THEN 0 ELSE g.base[1] + k),
                                            !.w = put(@, IF k = 0 THEN 0 ELSE g.base[2] + k)]]
                /\ IF c < Len(f.ut[p]) THEN at' = <<p, c + 1>> /\ pc' = "column"
                   ELSE IF p = 1 THEN at' = <<2, 1>> /\ pc' = "column"
                        ELSE at' = at /\ pc' = "read"
          /\ UNCHANGED <<common, cov, files, v, w>>
Drop == /\ pc = "read" /\ pc' = "open"
        /\ IF cov THEN UNCHANGED <<b, d, v, w>> ELSE b' = <<>> /\ d' = <<>> /\ v' = <<>> /\ w' = <<>>
        /\ UNCHANGED <<common, cov, files, mu, at>>
Next == Open \/ Column \/ Drop
Spec == Init /\ [][Next]_vars

(* the match-up data sets whose matrices are kept *)
Kept == IF pc = "read" THEN (IF cov THEN 1..Len(files) ELSE {Len(files)})
        ELSE IF pc = "open" /\ cov THEN 1..Len(files) ELSE {}
Refers == \A n \in Kept : \A p \in 1..2 : \A c \in 1..Len(files[n].ut[p]) :
            LET t == files[n].ut[p][c]
                g == mu[n]
            IN CASE t = 2 /\ common -> b[g.c[p][c]] = <<n, p, c>> /\ g.v[p][c] = 0 /\ g.w[p][c] = 0
                 [] t \in {1, 2} /\ ~ (t = 2 /\ common) -> d[g.c[p][c]] = <<n, p, c>> /\ g.v[p][c] = 0 /\ g.w[p][c] = 0
                 [] OTHER -> /\ g.c[p][c] = 0
                             /\ v[g.v[p][c]] = <<n, "u", UseOf(files[n], p, c)>>
                             /\ w[g.w[p][c]] = <<n, "w", UseOf(files[n], p, c)>>
Tiled == \A n \in 1..Len(mu) : mu[n].start = 1 + (IF n = 1 THEN 0 ELSE mu[n - 1].final) /\ mu[n].final - mu[n].start + 1 = mu[n].m
Rows == \A n \in 1..Len(mu) : LET f == files[n] IN
          /\ \A k \in 1..mu[n].m : Row(k, f.s) <= f.M
          /\ Row(mu[n].m + 1, f.s) > f.M
Hash == Len(b) * 7 + Len(d) * 11 + Len(v) * 13 + files[1].M * 3 + files[Len(files)].s * 5 + files[1].i + (IF common THEN 1 ELSE 0)
Emit == (pc = "read" /\ Len(files) = MaxFiles /\ Hash % Mod = 0) =>
          PrintT("@@" \o ToJson([kind |-> "read", common |-> common, cov |-> cov, files |-> files]))
==================================================================================
