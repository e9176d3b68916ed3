------------------------------- MODULE FilesTrace -------------------------------
(* Recorded use of the file writers, the weight-matrix functions and the input      *)
(* checker. A behaviour writes a file and may then add weight matrices to it.       *)
(*   write    variables handed to a writer; what the file then holds                *)
(*   serial   matrices handed over; the arrays returned                             *)
(*   append   arrays added to the file; what the file and the reader then give      *)
(*   roll     times, kernel; the weight matrix and uncertainties                    *)
(*   verdict  a file; what the checker says                                         *)
EXTENDS WFiles, Checker, TraceLib
VARIABLES l, cur
tvars == <<l, cur>>

Sub(A, B) == \A n \in DOMAIN A : n \in DOMAIN B /\ A[n] = B[n]
WNames == DOMAIN WVars
Clauses(ev) ==
  CASE ev = "write"   -> {"P05.status", "P05.attributes", "P05.sizes", "P05.variables", "P05.additional", "P05.nothing-else", "P05.bits", "P05.given"}
    [] ev = "serial"  -> {"P06.serial", "P06.given"}
    [] ev = "append"  -> {"P06.append", "P06.kept", "P06.matrices"}
    [] ev = "roll"    -> {"P16.status", "P16.weights", "P16.uncertainty", "P16.given"}
    [] ev = "verdict" -> {"P07.verdict", "P07.groups"}
    [] OTHER -> {}

DenseW(w) == LET n == 1 + MaxOf(Range1(w.col))
             IN [r \in 1..(Len(w.row) - 1) |-> [c \in 1..n |->
                   SumSeq([k \in 1..(w.row[r + 1] - w.row[r]) |-> IF w.col[w.row[r] + k] = c - 1 THEN w.val[w.row[r] + k] ELSE 0])]]
Group(f, g) == CASE g = "included" -> Included(f) [] g = "dimension" -> Dimensions(f) [] g = "dtype" -> Dtypes(f)
                 [] g = "attributes" -> Attributes(f)
                 [] g = "wsizes" -> WSizes(f) [] g = "values" -> Values(f) [] g = "wvalues" -> WValues(f)
                 [] g = "assignment" -> Assignment(f)
(* a file whose parts do not fit together may also make the checker fail            *)
Broken(f) == Included(f) # {} \/ Dtypes(f) # {} \/ ~ Shaped(f) \/ WSizes(f) # {} \/ WValues(f) # {}
GroupOk(f, g, n) == \/ n = -2                                    \* the group has no function of its own
                    \/ n = -1 /\ Broken(f)                      \* raised
                    \/ n >= 0 /\ IF g \in {"included", "dimension", "dtype", "attributes"} \/ Shaped(f)
                                 THEN (n > 0) <=> (Group(f, g) # {}) ELSE TRUE

Holds(c, r, C) ==
  LET o == r.obs IN
  CASE c = "P05.status" -> o.status = "ok"
    [] c = "P05.attributes" -> o.status = "ok" => o.attrs = r.attrs
    [] c = "P05.sizes" -> o.status = "ok" => Sub(r.sizes, o.sizes) /\ Cardinality(DOMAIN o.sizes) = Cardinality(DOMAIN r.sizes)
    [] c = "P05.variables" -> o.status = "ok" =>
            \A n \in DOMAIN Required : /\ n \in DOMAIN o.vars
                                       /\ o.vars[n].v = r.vars[n].v /\ o.vars[n].dims = Required[n].d
                                       /\ o.vars[n].dtype = r.vars[n].dtype
    [] c = "P05.additional" -> o.status = "ok" => o.said = r.said /\ \A n \in DOMAIN r.vars \ DOMAIN Required : n \in DOMAIN o.vars /\ o.vars[n] = r.vars[n]
    [] c = "P05.nothing-else" -> o.status = "ok" => DOMAIN o.vars = DOMAIN r.vars
    [] c = "P05.bits" -> o.status = "ok" => \A n \in DOMAIN r.bits : n \in DOMAIN o.bits /\ o.bits[n] = r.bits[n]
    [] c = "P05.given" -> o.status = "ok" => o.same
    [] c = "P06.given" -> o.same
    [] c = "P06.serial" -> o.status = "ok" /\ LET S == Serial(r.W, r.U) IN
            /\ o.nnz = S.nnz /\ o.row = S.row /\ o.col = S.col /\ o.val = S.val /\ o.ucount = S.ucount /\ o.uval = S.uval
    [] c = "P06.append" -> o.status = "ok" /\ LET S == Serial(r.W, r.U) IN
            /\ WNames \subseteq DOMAIN o.vars
            /\ \A n \in WNames : o.vars[n].dims = WVars[n].d /\ o.vars[n].dtype \in WVars[n].t
            /\ o.vars.w_matrix_nnz.v = S.nnz /\ o.vars.w_matrix_row.v = S.row /\ o.vars.w_matrix_col.v = S.col
            /\ o.vars.w_matrix_val.v = S.val /\ o.vars.u_matrix_row_count.v = S.ucount /\ o.vars.u_matrix_val.v = S.uval
            /\ o.vars.w_matrix_use1.v = r.wuse[1] /\ o.vars.w_matrix_use2.v = r.wuse[2]
            /\ o.vars.u_matrix_use1.v = r.uuse[1] /\ o.vars.u_matrix_use2.v = r.uuse[2]
    [] c = "P06.kept" -> o.status = "ok" => /\ \A n \in DOMAIN C.vars : n \in DOMAIN o.vars /\ o.vars[n] = C.vars[n]
                                            /\ o.attrs = C.attrs /\ Sub(C.sizes, o.sizes)
    [] c = "P06.matrices" -> o.status = "ok" =>
            \A p \in 1..2 : \A k \in 1..Len(r.wuse[p]) : r.wuse[p][k] # 0 =>
                LET x == o.read[p][k] IN /\ x.has
                                         /\ x.W = DenseW(r.W[r.wuse[p][k]])
                                         /\ x.U = r.U[r.uuse[p][k]]
    [] c = "P16.status" -> o.status = "ok"
    [] c = "P16.weights" -> o.status = "ok" => o.W = RollW(r.t, r.w)
    [] c = "P16.uncertainty" -> o.status = "ok" =>
            o.U = IF r.single THEN [j \in 1..Cardinality(Used(r.t, r.w)) |-> r.u[1][1]] ELSE RollU(r.t, r.w, r.u)
    [] c = "P16.given" -> o.status = "ok" => o.same
    [] c = "P07.verdict" -> /\ o.accept <=> (Violations(r.f) = {})
                            /\ (o.status = "ok" \/ Broken(r.f))
    [] c = "P07.groups" -> \A g \in DOMAIN o.groups : GroupOk(r.f, g, o.groups[g])

Mine(ev) == {c \in Clauses(ev) : SubSeq(c, 1, 3) = PROP}
TraceInit == l = 1 /\ cur = [vars |-> [x \in {} |-> 0], attrs |-> [x \in {} |-> 0], sizes |-> [x \in {} |-> 0]]
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
             /\ \A c \in Mine(r.ev) : IF Holds(c, r, cur) THEN TRUE ELSE Report(l, c)
             /\ cur' = IF r.ev = "write" THEN [vars |-> r.vars, attrs |-> r.attrs, sizes |-> r.sizes] ELSE cur
        /\ l' = l + 1
        /\ (l = Len(Trace) => Finished(l))
TraceSpec == TraceInit /\ [][Step]_tvars
================================================================================
