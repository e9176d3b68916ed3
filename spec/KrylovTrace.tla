------------------------------- MODULE KrylovTrace --------------------------------
(* Recorded solutions (times D) and squared norms (times D * D). N = nn / Ninv.         *)
EXTENDS Krylov, FiniteSets, TLC, TraceLib
VARIABLE l
Clauses(ev) == CASE ev = "lsmr" -> {"P23.done", "P23.solution", "P23.iterate", "P23.shortest", "P23.reason", "P23.norms"}
                 [] ev = "minres" -> {"P23.done", "P23.solution", "P23.iterate", "P23.reason", "P23.norms", "P23.refused"}
                 [] OTHER -> {}
(* the damping in terms of Ninv: damp^2 N^-1 = damp^2 Ninv / nn, so everything else is times nn *)
LG(r) == NormalMatrix(r.A, Len(r.Ninv), Scaled(r.nn, r.W), r.damp * r.damp, r.Ninv)
Lc(r) == NormalRhs(r.A, Len(r.Ninv), Scaled(r.nn, r.W), r.b)
MG(r) == Shifted(r.A, r.shift)
Symm(A) == Symmetric(A)
Given(P, b) == Dot(b, Apply(P, b))
Refused(r) == r.ev = "minres" /\ \/ r.checked /\ (~ Symm(r.A) \/ ~ Symm(r.P))
                                 \/ Given(r.P, r.b) < 0
Full(r) == r.limit = NONE
Reach(r) == r.ev = "lsmr" \/ r.reach
SafeX(r) == Reach(r) => \A i \in 1..Len(r.obs.x) : r.obs.x[i] < 100000 /\ r.obs.x[i] > 0 - 100000
Nw(r) == [i \in 1..Len(r.Ninv) |-> 4 \div r.Ninv[i]]
Residual(r) == Minus(Scaled(r.D, r.b), Apply(IF r.ev = "lsmr" THEN r.A ELSE MG(r), r.obs.x))
Holds(c, r) ==
  LET o == r.obs
      ok == o.status = "ok" /\ SafeX(r)
      first == r.limit = 1 /\ r.first
  IN
  CASE c = "P23.done" -> o.status = "ok" /\ SafeX(r) /\ o.same /\ o.kept
    [] c = "P23.solution" -> ok /\ ~ Refused(r) /\ Full(r) =>
          IF r.ev = "lsmr" THEN Solves(LG(r), Lc(r), o.x, r.D)
          ELSE IF r.reach THEN Solves(MG(r), r.b, o.x, r.D)
          ELSE Apply(MG(r), r.part) = Apply(MG(r), r.b) /\ o.Ax = r.part
    [] c = "P23.iterate" -> ok /\ first =>
          IF r.ev = "lsmr" THEN IsFirst(LG(r), Lc(r), Nw(r), o.x, r.D)
          ELSE IsFirst(MG(r), r.b, [i \in 1..Len(r.b) |-> r.P[i][i]], o.x, r.D)
    [] c = "P23.shortest" -> ok /\ Len(r.rows) > 0 => o.x = ApplyT(r.A, Len(r.Ninv), r.rows)
    [] c = "P23.reason" -> ok /\ ~ Refused(r) =>
          LET nothing == IF r.ev = "lsmr" THEN Lc(r) = Zero(Len(r.Ninv)) ELSE r.b = Zero(Len(r.b))
              reached == Reach(r) /\ Residual(r) = Zero(Len(r.b)) /\ (r.ev = "minres" \/ r.damp = 0)
              solved == IF r.ev = "lsmr" THEN Solves(LG(r), Lc(r), o.x, r.D) ELSE reached \/ ~ r.reach
          IN /\ o.itn <= r.itnlim
             /\ o.istop = 0 => nothing /\ o.itn = 0
             /\ (nothing /\ Reach(r)) => o.x = Zero(Len(o.x))
             /\ (nothing /\ r.ev = "minres") => o.istop = 0
             /\ o.istop # 0 => o.itn >= 1
             (* the limit is the reason only if it was reached, and it is if nothing was solved *)
             /\ o.istop = (IF r.ev = "lsmr" THEN 7 ELSE 6) => o.itn = r.itnlim
             /\ ~ solved => o.istop = (IF r.ev = "lsmr" THEN 7 ELSE 6)
             /\ (r.ev = "lsmr" /\ o.istop \in {1, 4}) => reached
             /\ r.ev = "lsmr" /\ o.istop \in {2, 5} => solved
             /\ Full(r) => o.istop \in IF r.ev = "lsmr" THEN {0, 1, 2, 4, 5, 8} ELSE {0 - 1, 0, 1, 2, 3, 10}
             /\ Full(r) /\ r.ev = "minres" => (o.converged <=> ~ nothing)
             /\ r.ev = "minres" /\ ~ solved => ~ o.converged
             /\ o.iterations # NONE => o.iterations = o.itn + 1 /\ o.stored
             /\ (r.ev = "lsmr" /\ o.residuals # NONE) => o.residuals = IF o.istop = 0 THEN 0 ELSE o.itn + 1
    [] c = "P23.norms" -> ok /\ ~ Refused(r) =>
          IF r.ev = "lsmr"
          THEN LET X == o.x
                   g == Left(LG(r), Lc(r), X, r.D)      (* times nn; o.normr is in 1/nn, o.normar in 1/(4 nn) *)
               IN /\ o.normx # NONE => o.normx = Dot(X, X)
                  /\ o.normr # NONE => o.normr = r.nn * Norm2(Residual(r), r.W) + r.damp * r.damp * Norm2(X, r.Ninv)
                  /\ o.normar # NONE => o.normar = Norm2(g, Nw(r))
          ELSE o.normr # NONE => o.normr = LET z == Residual(r) IN IF r.reach THEN Dot(z, Apply(r.P, z)) ELSE o.normr
    [] c = "P23.refused" -> ok /\ Refused(r) =>
          /\ ~ o.converged /\ o.itn = 0 /\ o.x = Zero(Len(o.x))
          /\ o.istop = IF ~ Symm(r.P) /\ r.checked THEN 8 ELSE IF ~ Symm(r.A) /\ r.checked THEN 7 ELSE 9
Mine(ev) == {c \in Clauses(ev) : SubSeq(c, 1, 3) = PROP}
TraceInit == l = 1
Step == /\ l <= Len(Trace)
        /\ \A c \in Mine(Trace[l].ev) : IF Holds(c, Trace[l]) THEN TRUE ELSE Report(l, c)
        /\ l' = l + 1
        /\ (l = Len(Trace) => Finished(l))
TraceSpec == TraceInit /\ [][Step]_l
===================================================================================
