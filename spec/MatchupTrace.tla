------------------------------ MODULE MatchupTrace ------------------------------
(* Recorded use of the match-up reader and of the object it returns, against      *)
(* Matchup. Events:                                                               *)
(*   begin      a new dataset directory                                           *)
(*   open       the files as they lie on disk, how they were named, what the      *)
(*              opened object holds                                               *)
(*   sensors    sensor data attached: the description given, what the object holds*)
(*   var, extreme, extra, extremes, track    one query each, with its answer      *)
(*   printed    what is printed of the object                                     *)
(*   closed     the object closed (0), or left with its block (1), by an error (2) *)
EXTENDS Matchup, TraceLib

VARIABLES l, ds      \* position in the trace; the dataset in series order
tvars == <<l, ds>>

(* ---- the order in which the files of a dataset make up its series ------------ *)
Given(r) == LET keep == SelectSeq(r.files, LAMBDA f : f.nc \/ r.mode \in {"file", "list"})
                key(f) == IF r.mode \in {"file", "list"} THEN f.given ELSE f.dir * 1000 + f.rank
                n == Len(keep)
            IN [i \in 1..n |-> CHOOSE f \in Range1(keep) :
                                  Cardinality({g \in Range1(keep) : key(g) < key(f)}) = i - 1]

(* ---- expectations ------------------------------------------------------------- *)
Names2(F) == UNION {{F[mu].add[i].name : i \in 1..Len(F[mu].add)} : mu \in Mus(F)}
Col(f, name) == IF \E i \in 1..Len(f.add) : f.add[i].name = name
                THEN f.add[CHOOSE i \in 1..Len(f.add) : f.add[i].name = name].v
                ELSE [r \in 1..f.M |-> NAN]
HasTrack(F, w, p) == \E mu \in Mus(F) : F[mu].track[w][p].has
TrackCol(f, w, p) == IF f.track[w][p].has THEN f.track[w][p].v ELSE [r \in 1..f.M |-> NAN]
Dense(w) == [r \in 1..(Len(w.row) - 1) |-> [c \in 1..(1 + MaxOf(Range1(w.col))) |->
                 LET hits == {k \in (w.row[r] + 1)..w.row[r + 1] : w.col[k] = c - 1}
                 IN IF hits = {} THEN 0 ELSE w.val[CHOOSE k \in hits : TRUE]]]

UncOk(F, B, o, i) ==
    LET b == B[i]
        f == F[b[2]]
        p == b[3]
        c == b[1]
        u == o.unc[i]
        col(A) == [r \in 1..f.M |-> A[p][r][c]]
        t == f.ut[p][c]
    IN /\ u.t = t
       /\ CASE t = 1 -> u.uR = col(f.Ur)
            [] t = 2 -> u.uR = col(f.Ur) /\ u.uS = col(f.Us)
            [] t \in {3, 4} ->
                 /\ u.w >= 0 /\ u.w < Len(o.W) /\ u.u >= 0 /\ u.u < Len(o.U)
                 /\ o.W[u.w + 1] = Dense(f.W[f.wuse[p][c]])
                 /\ o.U[u.u + 1] = f.U[f.uuse[p][c]]
                 /\ (t = 4 => u.uS = <<f.Us[p][1][c]>>)

SysBlocks(F) == LET B == BlockSeq(F) IN {i \in 1..Len(B) : F[B[i][2]].ut[B[i][3]][B[i][1]] \in {2, 4}}
SystematicOk(F, o) ==
    LET B == BlockSeq(F)
        S == SysBlocks(F)
    IN /\ \A i, j \in S : (o.unc[i].si = o.unc[j].si) <=> (SystematicKey(F, B[i]) = SystematicKey(F, B[j]))
       /\ {o.unc[i].si : i \in S} = 1..Cardinality({SystematicKey(F, B[i]) : i \in S})
WBlocks(F) == LET B == BlockSeq(F) IN {i \in 1..Len(B) : F[B[i][2]].ut[B[i][3]][B[i][1]] \in {3, 4}}
SharingOk(F, o) ==
    LET B == BlockSeq(F)
        wk(i) == <<B[i][2], F[B[i][2]].wuse[B[i][3]][B[i][1]]>>
        uk(i) == <<B[i][2], F[B[i][2]].uuse[B[i][3]][B[i][1]]>>
    IN \A i, j \in WBlocks(F) : /\ (o.unc[i].w = o.unc[j].w) <=> (wk(i) = wk(j))
                                /\ (o.unc[i].u = o.unc[j].u) <=> (uk(i) = uk(j))

(* sensor data: the parameters of the sensors of the dataset, in the order of the *)
(* description; constants alike; functions in the order of the dataset's sensors  *)
SD(r) == SelectSeq(r.sd, LAMBDA d : d.name \in Range1(Sensors(ds)))
ByName(r, n) == CHOOSE d \in Range1(r.sd) : d.name = n

(* ---- a printed dataset: numbers in hundredths, values in 1/Grid; of ten match-ups         *)
(* or more the first three and the last                                                       *)
Grid == 1048576
Hundredths(shown, v) == LET d == Grid * shown - 100 * v IN d <= Grid \div 2 /\ d >= 0 - (Grid \div 2)
Shown(M) == IF M < 10 THEN [i \in 1..M |-> i] ELSE <<1, 2, 3, 0, M>>
RowsShown(rows, M, cols, v(_, _)) ==
    /\ Len(rows) = Len(Shown(M))
    /\ \A i \in 1..Len(rows) : IF Shown(M)[i] = 0 THEN rows[i] = <<>>
                               ELSE Len(rows[i]) = cols /\ \A c \in 1..cols : Hundredths(rows[i][c], v(Shown(M)[i], c))
RECURSIVE Quoted(_)
Quoted(s) == IF s = <<>> THEN "" ELSE "'" \o Head(s) \o "'" \o (IF Len(s) = 1 THEN "" ELSE ", ") \o Quoted(Tail(s))
Printed(F, unc, o) ==
    /\ o.sensors = "[" \o Quoted(Sensors(F)) \o "]"
    /\ o.total = SumSeq([mu \in Mus(F) |-> F[mu].M]) /\ o.nseries = Len(F) /\ Len(o.series) = Len(F)
    /\ o.nvalues = SumSeq([mu \in Mus(F) |-> F[mu].M * (F[mu].m[1] + F[mu].m[2])])
    /\ \A mu \in Mus(F) : LET f == F[mu]
                              s == o.series[mu]
                          IN /\ s.sensors = f.s[1] \o ", " \o f.s[2] /\ s.M = f.M /\ s.names = f.s
                             /\ \A p \in 1..2 : RowsShown(s.rows[p], f.M, f.m[p], LAMBDA i, c : f.X[p][i][c])
                             /\ RowsShown(s.K, f.M, 1, LAMBDA i, c : f.K[i])
                             /\ s.types = (IF unc THEN f.ut ELSE <<>>) /\ s.ktype = (IF unc THEN <<1>> ELSE <<>>)

(* ---- clauses -------------------------------------------------------------------- *)
Clauses(ev) ==
  CASE ev = "open"    -> {"P01.status", "P01.sensors", "P01.pairs", "P01.counts", "P01.blocks", "P01.bounds", "P01.values",
                          "P02.status", "P02.values", "P02.ks", "P02.times", "P02.tracks", "P02.additional", "P02.absent",
                          "P03.status", "P03.unc", "P03.systematic", "P03.sharing", "P03.adjustment"}
    [] ev = "sensors" -> {"P04.parameters", "P04.constants", "P04.functions"}
    [] ev = "var"     -> {"P04.variable"}
    [] ev = "extreme" -> {"P04.extreme"}
    [] ev = "extra"   -> {"P04.extra"}
    [] ev = "extremes" -> {"P04.extremes"}
    [] ev = "printed" -> {"P04.printed"}
    [] ev = "track"   -> {"P04.track"}
    [] ev = "closed"  -> {"P04.closed"}
    [] OTHER -> {}

Holds(c, r, F) ==
  LET o == r.obs IN
  CASE c \in {"P01.status", "P02.status", "P03.status"} -> o.status = "ok"
    [] c = "P01.sensors" -> o.status = "ok" => (o.sensors = Sensors(F) /\ o.sensor_ms = SensorMs(F))
    [] c = "P01.pairs"   -> o.status = "ok" => o.Im = Im(F)
    [] c = "P01.counts"  -> o.status = "ok" => (o.Nm = Nm(F) /\ o.cNm = cNm(F))
    [] c = "P01.blocks"  -> o.status = "ok" =>
          LET B == BlockSeq(F) IN
             /\ o.n_cov = [i \in 1..Len(B) |-> B[i][1]]
             /\ o.n_mu = [i \in 1..Len(B) |-> B[i][2]]
             /\ o.n_sensor = [i \in 1..Len(B) |-> SensorNo(F, F[B[i][2]].s[B[i][3]]) - 1]
    [] c = "P01.bounds"  -> o.status = "ok" => (o.N_var = NVar(F) /\ o.idx = BlockBounds(F))
    [] c \in {"P01.values", "P02.values"}  -> o.status = "ok" => o.values = ValuesOf(F, LAMBDA f : f.X)
    [] c = "P02.ks"      -> o.status = "ok" => o.ks = PerMatchup(F, LAMBDA f : f.K)
    [] c = "P02.times"   -> o.status = "ok" => /\ o.time[1] = PerMatchup(F, LAMBDA f : f.t[1])
                                               /\ o.time[2] = PerMatchup(F, LAMBDA f : f.t[2])
    [] c = "P02.tracks"  -> o.status = "ok" =>
          \A w, p \in 1..2 : /\ o.track[w][p].has = HasTrack(F, w, p)
                             /\ HasTrack(F, w, p) => o.track[w][p].v = PerMatchup(F, LAMBDA f : TrackCol(f, w, p))
    [] c = "P02.additional" -> (o.status = "ok" /\ r.want_add) =>
          /\ Range1(o.addnames) = Names2(F) /\ Len(o.addnames) = Cardinality(Names2(F))
          /\ \A i \in 1..Len(o.addnames) : o.add[i] = PerMatchup(F, LAMBDA f : Col(f, o.addnames[i]))
    [] c = "P02.absent"  -> o.status = "ok" => /\ o.hasadd = r.want_add
                                               /\ o.hasunc = r.want_unc
    [] c = "P03.unc"     -> (o.status = "ok" /\ r.want_unc) =>
          LET B == BlockSeq(F) IN Len(o.unc) = Len(B) /\ \A i \in 1..Len(B) : UncOk(F, B, o, i)
    [] c = "P03.systematic" -> (o.status = "ok" /\ r.want_unc) => SystematicOk(F, o)
    [] c = "P03.sharing" -> (o.status = "ok" /\ r.want_unc) => SharingOk(F, o)
    [] c = "P03.adjustment" -> (o.status = "ok" /\ r.want_unc) =>
          o.unck2 = [mu \in Mus(F) |-> [i \in 1..F[mu].M |-> F[mu].Kr[i] * F[mu].Kr[i] + F[mu].Ks[i] * F[mu].Ks[i]]]
    [] c = "P04.parameters" -> /\ o.status = "ok"
                               /\ o.a = FlatSeq([i \in 1..Len(SD(r)) |-> SD(r)[i].params])
                               /\ o.psens = FlatSeq([i \in 1..Len(SD(r)) |-> [j \in 1..Len(SD(r)[i].params) |-> SD(r)[i].name]])
    [] c = "P04.constants" -> o.status = "ok" =>
                               /\ o.consts = FlatSeq([i \in 1..Len(SD(r)) |-> SD(r)[i].consts])
                               /\ o.csens = FlatSeq([i \in 1..Len(SD(r)) |-> [j \in 1..Len(SD(r)[i].consts) |-> SD(r)[i].name]])
    [] c = "P04.functions" -> o.status = "ok" =>
                               /\ o.models = [i \in 1..Len(Sensors(F)) |-> ByName(r, Sensors(F)[i]).model]
                               /\ o.adjust = [i \in 1..Len(Sensors(F)) |-> ByName(r, Sensors(F)[i]).adjust]
    [] c = "P04.variable" ->
          LET ps == IF r.mu \in Mus(F) THEN {p \in 1..2 : F[r.mu].s[p] = r.sensor /\ r.c <= F[r.mu].m[p]} ELSE {}
          IN IF ps = {} \/ r.c < 1 THEN o.status # "ok"
             ELSE LET p == CHOOSE p \in ps : TRUE
                  IN o.status = "ok" /\ o.v = [i \in 1..F[r.mu].M |-> F[r.mu].X[p][i][r.c]]
    [] c = "P04.extreme" ->
          LET p == CHOOSE p \in 1..2 : F[r.mu].s[p] = r.sensor
              S == {F[r.mu].X[p][i][r.c] : i \in 1..F[r.mu].M}
          IN o.status = "ok" /\ o.v = <<MinOf(S), MaxOf(S)>>
    [] c = "P04.extra" -> o.status = "ok" /\
          o.v = IF r.mu = 0 THEN PerMatchup(F, LAMBDA f : Col(f, r.name)) ELSE Col(F[r.mu], r.name)
    [] c = "P04.extremes" ->
          LET S == Range1(IF r.mu = 0 THEN PerMatchup(F, LAMBDA f : Col(f, r.name)) ELSE Col(F[r.mu], r.name))
          IN o.status = "ok" /\ o.v = <<MinOf(S), MaxOf(S)>>
    [] c = "P04.printed" -> o.status = "ok" /\ Printed(F, r.unc, o)
    [] c = "P04.closed"  -> Closed(r.how, o)
    [] c = "P04.track" ->
          LET ps == {p \in 1..2 : F[r.mu].s[p] = r.sensor}
          IN IF ps = {} THEN o.status = "IndexError"
             ELSE LET p == CHOOSE p \in ps : TRUE
                  IN /\ o.status = "ok"
                     /\ IF r.which = 3 THEN o.v = F[r.mu].t[p]
                        ELSE o.v = IF HasTrack(F, r.which, p) THEN TrackCol(F[r.mu], r.which, p) ELSE <<NONE>>

Mine(ev) == {c \in Clauses(ev) : SubSeq(c, 1, 3) = PROP}
Judge(r, F) == \A c \in Mine(r.ev) : IF Holds(c, r, F) THEN TRUE ELSE Report(l, c)

TraceInit == l = 1 /\ ds = <<>>
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               F == IF r.ev = "open" THEN Given(r) ELSE ds
           IN /\ Judge(r, F)
              /\ ds' = IF r.ev = "begin" THEN <<>> ELSE F
        /\ l' = l + 1
        /\ (l = Len(Trace) => Finished(l))
TraceSpec == TraceInit /\ [][Step]_tvars
================================================================================
