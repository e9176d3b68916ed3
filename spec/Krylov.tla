---------------------------------- MODULE Krylov ----------------------------------
(* The iterative solvers of linear systems the harmonisation rests on. Both look for x  *)
(* with G x = c, for a symmetric G: in least squares G = A'WA + damp^2 N^-1 and         *)
(* c = A'Wb (W the weights of the equations, N those of the unknowns); in the symmetric *)
(* solver G = A - shift I and c = b. A vector x is kept as X / D. Iterate k is, among   *)
(* the combinations of p, NGp, ..., (NG)^(k-1) p with p = N c, the one that minimises   *)
(* (c - Gx)' N (c - Gx).                                                                 *)
EXTENDS Integers, Sequences
RECURSIVE SumTo(_, _)
SumTo(v, k) == IF k = 0 THEN 0 ELSE v[k] + SumTo(v, k - 1)
Dot(u, v) == SumTo([i \in 1..Len(u) |-> u[i] * v[i]], Len(u))
Apply(A, v) == [i \in 1..Len(A) |-> Dot(A[i], v)]
(* A' v, for a matrix with n columns                                                     *)
ApplyT(A, n, v) == [j \in 1..n |-> SumTo([i \in 1..Len(A) |-> A[i][j] * v[i]], Len(A))]
Times(u, v) == [i \in 1..Len(u) |-> u[i] * v[i]]
Scaled(s, v) == [i \in 1..Len(v) |-> s * v[i]]
Minus(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
Zero(n) == [i \in 1..n |-> 0]
(* G and c of a system: A, b, W, damp2 and Ninv (N^-1, integers) for least squares       *)
NormalMatrix(A, n, W, damp2, Ninv) ==
  [i \in 1..n |-> [j \in 1..n |-> SumTo([k \in 1..Len(A) |-> A[k][i] * W[k] * A[k][j]], Len(A)) + IF i = j THEN damp2 * Ninv[i] ELSE 0]]
NormalRhs(A, n, W, b) == ApplyT(A, n, Times(W, b))
Shifted(A, shift) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> A[i][j] - IF i = j THEN shift ELSE 0]]
Symmetric(A) == \A i, j \in 1..Len(A) : A[i][j] = A[j][i]
(* D (c - G x)                                                                            *)
Left(G, c, X, D) == Minus(Scaled(D, c), Apply(G, X))
Solves(G, c, X, D) == Left(G, c, X, D) = Zero(Len(c))
(* the squared norm of v in the weights N                                                *)
Norm2(v, N) == Dot(v, Times(N, v))
(* the first iterate: a p, with (G p)' N (c - a G p) = 0                                 *)
FirstX(G, c, N) == LET p == Times(N, c)
                       g == Apply(G, p)
                   IN Scaled(Dot(g, Times(N, c)), p)
FirstD(G, c, N) == LET g == Apply(G, Times(N, c)) IN Norm2(g, N)
(* x is the first iterate: a multiple of p at which the next residual is N-orthogonal to G p *)
IsFirst(G, c, N, X, D) ==
  LET p == Times(N, c)
  IN /\ \A i, j \in 1..Len(c) : X[i] * p[j] = X[j] * p[i]
     /\ Dot(Apply(G, p), Times(N, Left(G, c, X, D))) = 0
===================================================================================
