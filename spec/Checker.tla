--------------------------------- MODULE Checker ---------------------------------
(* The rules of the match-up file format, as the input checker enforces them.       *)
(* A file is f = [vars  |-> name -> [dims, dtype, v], sizes |-> dimension -> size,  *)
(* attrs |-> name -> value]; v is a flat sequence, or a sequence of rows.           *)
EXTENDS Integers, Sequences, FiniteSets

Float == {"float32", "float64"}
Int32 == {"int32"}
Required == [X1 |-> [d |-> <<"M", "m1">>, t |-> Float], X2 |-> [d |-> <<"M", "m2">>, t |-> Float],
             Ur1 |-> [d |-> <<"M", "m1">>, t |-> Float], Ur2 |-> [d |-> <<"M", "m2">>, t |-> Float],
             Us1 |-> [d |-> <<"M", "m1">>, t |-> Float], Us2 |-> [d |-> <<"M", "m2">>, t |-> Float],
             K |-> [d |-> <<"M">>, t |-> Float], Kr |-> [d |-> <<"M">>, t |-> Float], Ks |-> [d |-> <<"M">>, t |-> Float],
             time1 |-> [d |-> <<"M">>, t |-> Float], time2 |-> [d |-> <<"M">>, t |-> Float],
             uncertainty_type1 |-> [d |-> <<"m1">>, t |-> Int32], uncertainty_type2 |-> [d |-> <<"m2">>, t |-> Int32]]
WVars == [w_matrix_nnz |-> [d |-> <<"w_matrix_count">>, t |-> Int32],
          w_matrix_row |-> [d |-> <<"w_matrix_count", "w_matrix_row_count">>, t |-> Int32],
          w_matrix_col |-> [d |-> <<"w_matrix_nnz_sum">>, t |-> Int32],
          w_matrix_val |-> [d |-> <<"w_matrix_nnz_sum">>, t |-> Float],
          w_matrix_use1 |-> [d |-> <<"m1">>, t |-> Int32], w_matrix_use2 |-> [d |-> <<"m2">>, t |-> Int32],
          u_matrix_row_count |-> [d |-> <<"u_matrix_count">>, t |-> Int32],
          u_matrix_val |-> [d |-> <<"u_matrix_row_count_sum">>, t |-> Float],
          u_matrix_use1 |-> [d |-> <<"m1">>, t |-> Int32], u_matrix_use2 |-> [d |-> <<"m2">>, t |-> Int32]]

LOCAL Rng(s) == {s[i] : i \in 1..Len(s)}
LOCAL MaxC(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SumC(_)
SumC(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumC(Tail(s))
RECURSIVE CatC(_)
CatC(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatC(Tail(ss))

Has(f, S) == S \subseteq DOMAIN f.vars
V(f, n) == f.vars[n].v
Two(f, n) == Len(f.vars[n].dims) = 2
All(f, n) == IF Two(f, n) THEN Rng(CatC(V(f, n))) ELSE Rng(V(f, n))     \* set of its values

NotANumber == 2000000001
Positive(x) == x > 0 /\ x # NotANumber
NotNegative(x) == x = 0 \/ Positive(x)

(* ---- the rules, each a set of violations by group ------------------------------- *)
Included(f) ==
    {<<"missing", n>> : n \in DOMAIN Required \ DOMAIN f.vars} \cup
    {<<"w missing", n>> : n \in IF DOMAIN WVars \cap DOMAIN f.vars = {} THEN {} ELSE DOMAIN WVars \ DOMAIN f.vars}
Spec1(n) == IF n \in DOMAIN Required THEN Required[n] ELSE WVars[n]
Known(f) == DOMAIN f.vars \cap (DOMAIN Required \cup DOMAIN WVars)
Dimensions(f) == {<<"dim", n>> : n \in {n \in Known(f) : f.vars[n].dims # Spec1(n).d}}
Dtypes(f) == {<<"dtype", n>> : n \in {n \in Known(f) : f.vars[n].dtype \notin Spec1(n).t}}
Attributes(f) ==
    {<<"attr", a>> : a \in {"sensor_1_name", "sensor_2_name"} \ DOMAIN f.attrs} \cup
    (IF {"sensor_1_name", "sensor_2_name"} \subseteq DOMAIN f.attrs
     THEN IF f.attrs.sensor_1_name = f.attrs.sensor_2_name THEN {<<"attr", "same sensor">>} ELSE {} ELSE {})
Use(f, x) == V(f, x \o "_matrix_use1") \o V(f, x \o "_matrix_use2")
WSizes(f) ==
    IF ~ Has(f, DOMAIN WVars) THEN {}
    ELSE (IF f.sizes.w_matrix_count # MaxC(Rng(Use(f, "w"))) THEN {<<"w count">>} ELSE {}) \cup
         (IF f.sizes.u_matrix_count # MaxC(Rng(Use(f, "u"))) THEN {<<"u count">>} ELSE {}) \cup
         (IF f.sizes.w_matrix_row_count # f.sizes.M + 1 THEN {<<"w rows">>} ELSE {}) \cup
         (IF f.sizes.w_matrix_nnz_sum # SumC(V(f, "w_matrix_nnz")) THEN {<<"w nnz sum">>} ELSE {}) \cup
         (IF f.sizes.u_matrix_row_count_sum # SumC(V(f, "u_matrix_row_count")) THEN {<<"u row sum">>} ELSE {})
Values(f) ==
    (IF Has(f, {"Kr", "Ks"})
     THEN (IF \E x \in All(f, "Kr") : ~ NotNegative(x) THEN {<<"negative Kr">>} ELSE {}) \cup
          (IF \E x \in All(f, "Ks") : ~ NotNegative(x) THEN {<<"negative Ks">>} ELSE {}) \cup
          (IF \E i \in 1..Len(V(f, "Kr")) : i <= Len(V(f, "Ks")) /\ V(f, "Kr")[i] = 0 /\ V(f, "Ks")[i] = 0 THEN {<<"zero K uncertainty">>} ELSE {})
     ELSE {}) \cup
    (IF Has(f, {"Ur1", "Ur2", "Us1", "Us2"})
     THEN {<<"negative", n>> : n \in {n \in {"Ur1", "Ur2", "Us1", "Us2"} : \E x \in All(f, n) : ~ NotNegative(x)}} ELSE {})
Numbered(s) == Rng(s) \ {0} = 1..MaxC(Rng(s) \cup {0})
WValues(f) ==
    IF ~ Has(f, DOMAIN WVars) THEN {}
    ELSE LET wu == Use(f, "w")
             uu == Use(f, "u")
             nnz == V(f, "w_matrix_nnz")
             col == V(f, "w_matrix_col")
             rc == V(f, "u_matrix_row_count")
             from(i) == SumC(SubSeq(nnz, 1, i - 1)) + 1
             width(i) == MaxC({-1} \cup {col[j] : j \in {j \in from(i)..(from(i) + nnz[i] - 1) : j \in 1..Len(col)}}) + 1
             pair == {j \in 1..Len(wu) : wu[j] \in 1..Len(nnz) /\ uu[j] \in 1..Len(rc)}
         IN (IF ~ Numbered(wu) THEN {<<"w numbers">>} ELSE {}) \cup
            (IF ~ Numbered(uu) THEN {<<"u numbers">>} ELSE {}) \cup
            (IF {j \in 1..Len(wu) : wu[j] # 0} # {j \in 1..Len(uu) : uu[j] # 0} THEN {<<"w and u use">>} ELSE {}) \cup
            (IF \E j \in pair : rc[uu[j]] # width(wu[j]) THEN {<<"w width">>} ELSE {}) \cup
            (IF \E x \in All(f, "u_matrix_val") : ~ Positive(x) THEN {<<"u values">>} ELSE {}) \cup
            {<<"negative index", n>> : n \in {n \in {"w_matrix_nnz", "w_matrix_row", "w_matrix_col", "u_matrix_row_count"} :
                                                   \E x \in All(f, n) : x < 0}}
(* a column has exactly one error structure, the one that its type names            *)
Forms(f, s, c) ==
    LET Ur == V(f, "Ur" \o s)
        Us == V(f, "Us" \o s)
        w == "w_matrix_use" \o s \in DOMAIN f.vars /\ V(f, "w_matrix_use" \o s)[c] > 0
        ur == \A i \in 1..Len(Ur) : Positive(Ur[i][c])
        us0 == \A i \in 1..Len(Us) : Us[i][c] = 0
        us == \A i \in 1..Len(Us) : Positive(Us[i][c])
    IN (IF ur /\ us0 THEN {1} ELSE {}) \cup (IF ur /\ us THEN {2} ELSE {}) \cup
       (IF w /\ us0 THEN {3} ELSE {}) \cup (IF w /\ us THEN {4} ELSE {})
Assignment(f) ==
    IF ~ Has(f, {"X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "uncertainty_type1", "uncertainty_type2"}) THEN {}
    ELSE UNION {{<<"assignment", s, c>> : c \in {c \in 1..f.sizes["m" \o s] :
                    Forms(f, s, c) # {V(f, "uncertainty_type" \o s)[c]}}} : s \in {"1", "2"}}

(* shapes are those that the values rules speak of                                  *)
Shaped(f) == Dimensions(f) = {}
Violations(f) == Included(f) \cup Dimensions(f) \cup Dtypes(f) \cup Attributes(f) \cup
                 (IF Shaped(f) THEN WSizes(f) \cup Values(f) \cup WValues(f) \cup Assignment(f) ELSE {})
================================================================================
