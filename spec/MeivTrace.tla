-------------------------------- MODULE MeivTrace --------------------------------
(* Recorded runs of the Fortran software.                                              *)
(*   begin    a job, the numbers of columns of the sensors' equations, the capacity      *)
(*   reading  a match-up data set D read (or refused)                                    *)
(*   dump     everything held afterwards (with cov = FALSE matrices are dropped then)    *)
(*   demo     the software's own executable on a job                                     *)
(*   pairs, sensors, stored, lists   the registries and matrix lists by themselves       *)
EXTENDS Meiv, TraceLib
VARIABLES l, at, acc      \* at: the begin event's line; acc: lines of the readings accepted since
Q == 1024
QQ == Q * Q
Job == Trace[at].job
SeqR == Trace[at].r

Clauses(ev) ==
  CASE ev = "reading" -> {"P18.accept"}
    [] ev = "skipped" -> {"P18.skipped"}
    [] ev = "end"     -> {"P18.end"}
    [] ev = "dump"    -> {"P18.registry", "P18.rows", "P18.values", "P18.adjust", "P18.times", "P18.track",
                          "P19.types", "P19.independent", "P19.structured", "P19.counts"}
    [] ev = "demo"    -> {"P18.demo"}
    [] ev = "pairs"   -> {"P18.pairs"}
    [] ev = "sensors" -> {"P18.sensors"}
    [] ev = "stored"  -> {"P19.stored"}
    [] ev = "lists"   -> {"P19.lists"}
    [] OTHER -> {}

(* --- what must be held after readings ------------------------------------------------ *)
Refused(g, pairs, n) == \/ BadSize(Job, g.D, SeqR[g.i], SeqR[g.j]) \/ BadPair(g.i, g.j, pairs) \/ n >= Trace[at].cap
                        \/ BadFormat(g.D) \/ BadValues(g.D, NAN)
PairsOf(gs) == {<<gs[n].i, gs[n].j>> : n \in 1..Len(gs)}
Acc == [n \in 1..Len(acc) |-> Trace[acc[n]]]
Count(g) == SampleCount(g.D.M, g.s)
SensorOf(g, p) == IF p = 1 THEN g.i ELSE g.j
RECURSIVE Start(_, _)
Start(gs, n) == IF n = 1 THEN 1 ELSE Start(gs, n - 1) + Count(gs[n - 1])
(* the accepted data sets whose matrices are held                                       *)
Kept == IF Job.cov THEN 1..Len(acc) ELSE {Len(acc)}
Sampled(g, f(_)) == [k \in 1..Count(g) |-> f(Row(k, g.s))]
Zeros(k) == [x \in 1..k |-> 0]
ColumnsOk(o, ok(_, _, _, _, _)) ==
  \A n \in 1..Len(acc) : \A p \in 1..2 :
    LET g == Trace[acc[n]] IN
      \A c \in 1..SeqR[SensorOf(g, p)] : ok(n, g, p, c, ColOf(Job, SensorOf(g, p), c))
KeptColumnsOk(o, ok(_, _, _, _, _)) ==
  \A n \in Kept : \A p \in 1..2 :
    LET g == Trace[acc[n]] IN
      \A c \in 1..SeqR[SensorOf(g, p)] : ok(n, g, p, c, ColOf(Job, SensorOf(g, p), c))

Registry(o) ==
  /\ Len(o.mm) = Len(acc)
  /\ \A n \in 1..Len(acc) :
       LET g == Trace[acc[n]]
           h == o.mm[n]
       IN /\ h.name = g.name /\ h.uuid = g.D.uuid /\ h.i = g.i /\ h.j = g.j
          /\ h.m = Count(g) /\ h.start = Start(Acc, n) /\ h.final = h.start + h.m - 1
          /\ h.r = <<SeqR[g.i], SeqR[g.j]>>
RowsOk(o) == \A n \in 1..Len(acc) : \A p \in 1..2 :
  LET g == Trace[acc[n]]
      h == o.mm[n]
  IN /\ Len(h.q[p]) = Count(g) /\ \A k \in 1..Len(h.q[p]) : Len(h.q[p][k]) = SeqR[SensorOf(g, p)]
     /\ Len(h.h[p]) = Count(g) /\ Len(h.vh[p]) = Count(g) /\ Len(h.t[p]) = Count(g) /\ Len(h.p[p]) = Count(g)
Values(o) == ColumnsOk(o, LAMBDA n, g, p, c, col :
  \A k \in 1..Count(g) : o.mm[n].q[p][k][c] = Telemetry(g.D, p, Row(k, g.s), col))
Adjust(o) == \A n \in 1..Len(acc) :
  LET g == Trace[acc[n]]
      h == o.mm[n]
      D == g.D
  IN /\ h.h[1] = Zeros(Count(g)) /\ h.vh[1] = Zeros(Count(g))
     /\ h.h[2] = Sampled(g, LAMBDA r : IF D.hask THEN D.K[r] ELSE 0)
     /\ h.vh[2] = Sampled(g, LAMBDA r : (IF D.haskr THEN D.Kr[r] * D.Kr[r] ELSE QQ) + (IF D.hasks THEN D.Ks[r] * D.Ks[r] ELSE 0))
Times(o) == \A n \in 1..Len(acc) : \A p \in 1..2 :
  LET g == Trace[acc[n]] IN o.mm[n].t[p] = Sampled(g, LAMBDA r : g.D.t[p][r])
Track(o) == \A n \in 1..Len(acc) : \A p \in 1..2 :
  LET g == Trace[acc[n]] IN o.mm[n].p[p] = Sampled(g, LAMBDA r : IF g.D.track[p].has THEN g.D.track[p].v[r] ELSE 0)

Types(o) == ColumnsOk(o, LAMBDA n, g, p, c, col : o.mm[n].u[p][c] = TypeOf(Job, g.D, p, col))
Squares(x) == [k \in 1..Len(x) |-> x[k] * x[k]]
Independent(o) == KeptColumnsOk(o, LAMBDA n, g, p, c, col :
  LET t == TypeOf(Job, g.D, p, col)
      x == o.mm[n].c[p][c]
      ur == Sampled(g, LAMBDA r : UrOf(g.D, p, r, col))
      us == Sampled(g, LAMBDA r : UsOf(g.D, p, r, col))
  IN CASE t = 1 -> /\ x \in 1..Len(o.d) /\ o.d[x].m = Count(g) /\ o.d[x].a = Squares(ur)
       [] t = 2 -> /\ x \in 1..Len(o.b) /\ o.b[x].m = Count(g) /\ o.b[x].a = Squares(ur) /\ o.b[x].u = us
       [] OTHER -> x = 0)
Structured(o) == KeptColumnsOk(o, LAMBDA n, g, p, c, col :
  LET t == TypeOf(Job, g.D, p, col)
      v == o.mm[n].v[p][c]
      w == o.mm[n].w[p][c]
  IN IF t = 3
     THEN LET U == g.D.U[g.D.uuse[p][col]]
          IN /\ v \in 1..Len(o.v) /\ o.v[v].m = Len(U) /\ o.v[v].a = Squares(U)
             /\ w \in 1..Len(o.w) /\ SameMatrix(o.w[w].B, o.w[w].m, o.w[w].n, g.D.W[g.D.wuse[p][col]], g.s)
     ELSE v = 0 /\ w = 0)
(* as many matrices as the kept data sets have, and no column of two sides shares an independent one *)
ColumnsWith(P(_, _, _)) == {<<n, p, c>> \in Kept \X (1..2) \X (1..8) :
  LET g == Trace[acc[n]] IN c <= SeqR[SensorOf(g, p)] /\ P(n, p, TypeOf(Job, g.D, p, ColOf(Job, SensorOf(g, p), c)))}
HeldOf(f(_)) == SumSeq([n \in 1..Len(acc) |-> IF n \in Kept THEN f(Trace[acc[n]].D) ELSE 0])
Counts(o) == LET D1 == ColumnsWith(LAMBDA n, p, t : t = 1)
                 D2 == ColumnsWith(LAMBDA n, p, t : t = 2)
             IN /\ Len(o.d) = Cardinality(D1) /\ Len(o.b) = Cardinality(D2)
                /\ {o.mm[x[1]].c[x[2]][x[3]] : x \in D1} = 1..Len(o.d)
                /\ {o.mm[x[1]].c[x[2]][x[3]] : x \in D2} = 1..Len(o.b)
                /\ Len(o.v) = HeldOf(LAMBDA D : Len(D.U))
                /\ Len(o.w) = HeldOf(LAMBDA D : Len(D.W))

(* --- the executable -------------------------------------------------------------------- *)
RECURSIVE AllGood(_, _)
AllGood(files, n) == IF n > Len(files) THEN TRUE
                     ELSE ~ Refused(files[n], PairsOf(SubSeq(files, 1, n - 1)), n - 1) /\ AllGood(files, n + 1)
Demo(r) == IF AllGood(r.files, 1) THEN r.obs.status = "done" /\ r.obs.n = 1 ELSE r.obs.status = "refused" /\ r.obs.n = 0

(* --- registries ------------------------------------------------------------------------- *)
RECURSIVE Taken(_, _, _, _)
Taken(adds, cap, n, got) ==      \* the positions of the additions accepted
  IF n > Len(adds) THEN got
  ELSE LET a == adds[n]
           prs == {<<adds[got[k]].i, adds[got[k]].j>> : k \in 1..Len(got)}
       IN Taken(adds, cap, n + 1, IF Len(got) < cap /\ ~ BadPair(a.i, a.j, prs) THEN Append(got, n) ELSE got)
IndexIn(got, n) == IF \E k \in 1..Len(got) : got[k] = n THEN IndexOf(got, n) ELSE 0
Pairs(r) == LET got == Taken(r.adds, r.cap, 1, <<>>)
                mm == r.obs.mm
            IN /\ r.obs.status = "done"
               /\ r.obs.idx = [n \in 1..Len(r.adds) |-> IndexIn(got, n)]
               /\ Len(mm) = Len(got)
               /\ \A k \in 1..Len(got) :
                    LET a == r.adds[got[k]]
                    IN /\ mm[k].i = a.i /\ mm[k].j = a.j /\ mm[k].m = a.m /\ mm[k].r = a.r
                       /\ mm[k].start = 1 + (IF k = 1 THEN 0 ELSE mm[k - 1].final)
                       /\ mm[k].final = mm[k].start + a.m - 1
RECURSIVE ParStart(_, _)
ParStart(adds, k) == IF k = 1 THEN 1 ELSE ParStart(adds, k - 1) + adds[k - 1].n
Diagonal(n, f(_)) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN f(i) ELSE 0]]
SensorsOk(r) ==
  LET n == IF Len(r.adds) < r.cap THEN Len(r.adds) ELSE r.cap
      o == r.obs
  IN /\ o.status = "done"
     /\ o.idx = [k \in 1..Len(r.adds) |-> IF k <= r.cap THEN k ELSE 0]
     /\ Len(o.list) = n
     /\ \A k \in 1..n :
          LET a == r.adds[k]
              s == o.list[k]
          IN /\ s.name = a.name
             /\ s.idnro = <<a.id, a.n, a.r, IF a.o = 0 THEN 2 * a.n ELSE a.o>>
             /\ s.at = <<ParStart(r.adds, k), ParStart(r.adds, k) + a.n - 1>>
             /\ s.y = IF a.o = 0 THEN [x \in 1..(2 * a.n) |-> IF x % 2 = 1 THEN 0 ELSE Q] ELSE SubSeq(r.cfg[k], 1, a.o)
             /\ s.x = IF a.hasx THEN a.x ELSE Zeros(a.n)
             /\ s.c = Diagonal(a.n, LAMBDA i : IF a.hasu /\ a.u[i] > 0 THEN a.u[i] * a.u[i] ELSE 0)
             /\ s.ci = Diagonal(a.n, LAMBDA i : IF a.hasu /\ a.u[i] > 0 THEN (Q * Q * Q) \div (a.u[i] * a.u[i]) ELSE 0)

(* --- matrices ---------------------------------------------------------------------------- *)
StoredOk(r) ==
  LET o == r.obs
      mixed == \E k \in 1..Len(r.Ws) : r.Ws[k].base # r.Ws[1].base
  IN IF mixed THEN o.status = "refused"
     ELSE /\ o.status = "done" /\ o.idx = [k \in 1..Len(r.Ws) |-> k] /\ Len(o.w) = Len(r.Ws)
          /\ \A k \in 1..Len(r.Ws) : SameMatrix(o.w[k].B, o.w[k].m, o.w[k].n, r.Ws[k], r.s)
(* lists: entries [val, u] kept up to the capacity; a drop empties all but the z list           *)
RECURSIVE Replay(_, _, _, _, _)
Put(st, op, xs, cap) ==         \* adds xs one by one
  LET room == cap - Len(st[op])
      k == IF Len(xs) < room THEN Len(xs) ELSE room
  IN [st EXCEPT ![op] = @ \o SubSeq(xs, 1, k)]
Positions(st, op, n, cap) == [k \in 1..n |-> IF Len(st[op]) + k <= cap THEN Len(st[op]) + k ELSE 0]
Entries(o) == CASE o.op \in {"d", "b"} -> <<[val |-> o.val[1], u |-> o.u]>>
                [] o.op = "v" -> [k \in 1..o.n |-> [val |-> o.val[k], u |-> <<>>]]
                [] OTHER -> <<[val |-> <<>>, u |-> <<>>]>>
Replay(ops, n, cap, st, idx) ==
  IF n > Len(ops) THEN <<st, idx>>
  ELSE LET o == ops[n] IN
       IF o.op = "drop" THEN Replay(ops, n + 1, cap, [st EXCEPT !.d = <<>>, !.b = <<>>, !.v = <<>>, !.w = <<>>], idx)
       ELSE Replay(ops, n + 1, cap, Put(st, o.op, Entries(o), cap), Append(idx, Positions(st, o.op, o.n, cap)))
Lists(r) ==
  LET e == Replay(r.ops, 1, r.cap, [b |-> <<>>, d |-> <<>>, v |-> <<>>, w |-> <<>>, z |-> <<>>], <<>>)
      st == e[1]
      o == r.obs
      order == <<"b", "d", "v", "w", "z">>
  IN /\ o.status = "done" /\ o.idx = e[2]
     /\ \A x \in 1..5 : /\ o.counts[x] = Len(st[order[x]])
                        /\ o.has[x] = [k \in 1..(r.cap + 3) |-> IF k - 2 \in 1..Len(st[order[x]]) THEN 1 ELSE 0]
     /\ Len(o.held.b) = Len(st.b) /\ Len(o.held.d) = Len(st.d) /\ Len(o.held.v) = Len(st.v)
     /\ \A k \in 1..Len(st.b) : o.held.b[k].a = Squares(st.b[k].val) /\ o.held.b[k].u = st.b[k].u
     /\ \A k \in 1..Len(st.d) : o.held.d[k].a = Squares(st.d[k].val)
     /\ \A k \in 1..Len(st.v) : o.held.v[k].a = Squares(st.v[k].val)

Holds(c, r) ==
  LET o == r.obs IN
  CASE c = "P18.accept" -> o.status = IF Refused(r, PairsOf(Acc), Len(acc)) THEN "refused" ELSE "read"
    [] c = "P18.skipped" -> FALSE
    [] c = "P18.end" -> o.status = "done"
    [] c = "P18.registry" -> Registry(o)
    [] c = "P18.rows" -> Registry(o) => RowsOk(o)
    [] c = "P18.values" -> Registry(o) /\ RowsOk(o) => Values(o)
    [] c = "P18.adjust" -> Registry(o) => Adjust(o)
    [] c = "P18.times" -> Registry(o) => Times(o)
    [] c = "P18.track" -> Registry(o) => Track(o)
    [] c = "P18.demo" -> Demo(r)
    [] c = "P18.pairs" -> Pairs(r)
    [] c = "P18.sensors" -> SensorsOk(r)
    [] c = "P19.types" -> Types(o)
    [] c = "P19.independent" -> Independent(o)
    [] c = "P19.structured" -> Structured(o)
    [] c = "P19.counts" -> Counts(o)
    [] c = "P19.stored" -> StoredOk(r)
    [] c = "P19.lists" -> Lists(r)

Mine(ev) == {c \in Clauses(ev) : SubSeq(c, 1, 3) = PROP}
TraceInit == l = 1 /\ at = 1 /\ acc = <<>>
Step == /\ l <= Len(Trace)
        /\ \A c \in Mine(Trace[l].ev) : IF Holds(c, Trace[l]) THEN TRUE ELSE Report(l, c)
        /\ at' = IF Trace[l].ev = "begin" THEN l ELSE at
        /\ acc' = IF Trace[l].ev = "begin" THEN <<>>
                  ELSE IF Trace[l].ev = "reading" /\ Trace[l].obs.status = "read" THEN Append(acc, l) ELSE acc
        /\ l' = l + 1
        /\ (l = Len(Trace) => Finished(l))
TraceSpec == TraceInit /\ [][Step]_<<l, at, acc>>
==================================================================================
