------------------------------ MODULE ConvertTrace ------------------------------
(* Recorded conversions of match-up files.                                          *)
(*   avhrr    an original AVHRR file; the files written                             *)
(*   mw       a folder of microwave files; the files written                        *)
(*   sim      simulated data in text files; the files written                       *)
(*   band     temperatures or radiances of a channel; what they are converted to    *)
EXTENDS Convert, TraceLib
VARIABLE l

Clauses(ev) ==
  CASE ev = "avhrr" -> {"P25.status", "P25.files", "P25.variables", "P25.matrices", "P25.format", "P25.input"}
    [] ev = "mw"    -> {"P26.status", "P26.files", "P26.variables", "P26.matrices", "P26.format", "P26.input"}
    [] ev = "sim"   -> {"P27.status", "P27.files", "P27.variables", "P27.matrices", "P27.format", "P27.parameters", "P27.input"}
    [] ev = "band"  -> {"P28.status", "P28.value", "P28.input"}
    [] OTHER -> {}

(* variables, sizes and attributes of a file f are those of x, matrices apart *)
Same(f, x) ==
    /\ DOMAIN f.vars \ DOMAIN WVars = DOMAIN x.vars
    /\ \A n \in DOMAIN x.vars : /\ f.vars[n].v = x.vars[n].v /\ f.vars[n].dims = x.vars[n].dims
                                /\ IF n \in DOMAIN Required THEN f.vars[n].dtype \in Required[n].t ELSE f.vars[n].dtype = x.vars[n].dtype
    /\ \A s \in DOMAIN x.sizes : s \in DOMAIN f.sizes /\ f.sizes[s] = x.sizes[s]
    /\ \A a \in DOMAIN x.attrs : a \in DOMAIN f.attrs /\ f.attrs[a] = x.attrs[a]
(* and its matrices are those of x, of every column *)
Matrices(f, x) ==
    IF x.W = <<>> THEN DOMAIN f.vars \cap DOMAIN WVars = {}
    ELSE /\ DOMAIN WVars \subseteq DOMAIN f.vars
         /\ Violations(f) = {}
         /\ \A p \in 1..2 : LET wu == V(f, "w_matrix_use" \o ToString(p))
                                uu == V(f, "u_matrix_use" \o ToString(p))
                                S == Stored(f)
                            IN /\ Len(wu) = Len(x.wuse[p]) /\ Len(uu) = Len(x.uuse[p])
                               /\ \A c \in 1..Len(wu) : IF x.wuse[p][c] = 0 THEN wu[c] = 0 /\ uu[c] = 0
                                     ELSE /\ wu[c] # 0 /\ uu[c] # 0
                                          /\ ReadU(S, uu[c]) = x.U[x.uuse[p][c]]
                                          /\ DenseN(ReadW(S, wu[c]), Len(x.U[x.uuse[p][c]])) = x.W[x.wuse[p][c]]

AvhrrOut(in) == {<<n, v, Folder(in.band, n, v) \o "/" \o in.name>> : n \in 4..5, v \in Variants}
Channel(band) == CASE band = 37 -> 1 [] band = 11 -> 2 [] band = 12 -> 3
(* both sensors have a name, and the channel *)
AvhrrAccepted(in) == \A p \in 1..2 : KnownSensor(in.sensors[p]) /\ HasChannel(SensorName(in.sensors[p]), Channel(in.band))
Ok(r) == r.obs.status = "ok"
Holds(c, r) ==
  LET o == r.obs IN
  CASE c = "P25.status" -> IF AvhrrAccepted(r.in) THEN Ok(r) ELSE ~ Ok(r)
    [] c = "P25.files" -> IF AvhrrAccepted(r.in) THEN Ok(r) => DOMAIN o.out = {x[3] : x \in AvhrrOut(r.in)} ELSE DOMAIN o.out = {}
    [] c = "P25.variables" -> AvhrrAccepted(r.in) => \A x \in AvhrrOut(r.in) : x[3] \in DOMAIN o.out => Same(o.out[x[3]], Avhrr(r.in, x[1], x[2]).f)
    [] c = "P25.matrices" -> AvhrrAccepted(r.in) => \A x \in AvhrrOut(r.in) : x[3] \in DOMAIN o.out => Matrices(o.out[x[3]], Avhrr(r.in, x[1], x[2]))
    [] c = "P25.format" -> \A x \in DOMAIN o.out : Violations(o.out[x]) = {}
    [] c = "P25.input" -> o.same
    [] c = "P26.status" -> Ok(r) <=> \A n \in DOMAIN r.files : MwAccepted(<<r.files[n].f.attrs.sensor_1_name, r.files[n].f.attrs.sensor_2_name>>)
    [] c = "P26.files" -> /\ Ok(r) => DOMAIN o.out = DOMAIN r.files
                          /\ \A n \in DOMAIN o.out : n \in DOMAIN r.files /\ MwAccepted(<<r.files[n].f.attrs.sensor_1_name, r.files[n].f.attrs.sensor_2_name>>)
    [] c = "P26.variables" -> \A n \in DOMAIN o.out \cap DOMAIN r.files :
            LET x == Mw(r.files[n].f, r.files[n].t).f IN
            Same(o.out[n], x) /\ \A y \in DOMAIN x.vars : o.out[n].vars[y].dtype = x.vars[y].dtype
    [] c = "P26.matrices" -> \A n \in DOMAIN o.out \cap DOMAIN r.files : Matrices(o.out[n], Mw(r.files[n].f, r.files[n].t))
    [] c = "P26.format" -> \A n \in DOMAIN o.out : Violations(o.out[n]) = {}
    [] c = "P26.input" -> o.same
    [] c = "P27.status" -> Ok(r) <=> r.in.complete /\ Cardinality(SimOdd(r.in)) <= 1
    [] c = "P27.files" -> /\ Ok(r) => DOMAIN o.out = {SimName(r.in, i) : i \in 1..Len(r.in.pairs)}
                          /\ ~ r.in.complete => DOMAIN o.out = {}
    [] c = "P27.variables" -> Ok(r) => \A i \in 1..Len(r.in.pairs) : SimName(r.in, i) \in DOMAIN o.out => Same(o.out[SimName(r.in, i)], Sim(r.in, i).f)
    [] c = "P27.matrices" -> Ok(r) => \A i \in 1..Len(r.in.pairs) : SimName(r.in, i) \in DOMAIN o.out => Matrices(o.out[SimName(r.in, i)], Sim(r.in, i))
    [] c = "P27.format" -> Ok(r) => \A n \in DOMAIN o.out : Violations(o.out[n]) = {}
    [] c = "P27.parameters" -> Ok(r) => o.a = r.in.a
    [] c = "P27.input" -> o.same
    [] c = "P28.status" -> Ok(r) <=> HasChannel(r.name, r.channel)
    [] c = "P28.value" -> Ok(r) => /\ o.shape = r.shape
                                   /\ Len(o.v) = Len(r.given) /\ \A i \in 1..Len(o.v) : o.v[i] = IF r.given[i] = 0 THEN NAN ELSE NominalUnit
    [] c = "P28.input" -> o.same

Mine(ev) == {c \in Clauses(ev) : SubSeq(c, 1, 3) = PROP}
TraceInit == l = 1
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN \A c \in Mine(r.ev) : IF Holds(c, r) THEN TRUE ELSE Report(l, c)
        /\ l' = l + 1
        /\ (l = Len(Trace) => Finished(l))
TraceSpec == TraceInit /\ [][Step]_l
================================================================================
