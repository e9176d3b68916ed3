--------------------------------- MODULE KrylovMC ---------------------------------
(* The iterates for every small system with two unknowns.                              *)
EXTENDS Krylov, FiniteSets, TLC, Json
CONSTANTS Width, Damping
VARIABLES use, A, b, damp, Ninv, k, X, D
vars == <<use, A, b, damp, Ninv, k, X, D>>
Entry == (0 - 1)..(Width - 1)
(* N is the inverse of Ninv, times 2, so that it consists of integers too              *)
N == [i \in 1..2 |-> 2 \div Ninv[i]]
G == IF use = "lsmr" THEN NormalMatrix(A, 2, <<1, 1>>, damp * damp, Ninv) ELSE Shifted(A, damp)
c == IF use = "lsmr" THEN NormalRhs(A, 2, <<1, 1>>, b) ELSE b
Det(M) == M[1][1] * M[2][2] - M[1][2] * M[2][1]
Solved == Solves(G, c, X, D)
Init == /\ use \in {"lsmr", "minres"}
        /\ A \in [1..2 -> [1..2 -> Entry]]
        /\ use = "minres" => Symmetric(A)
        /\ b \in {<<0, 0>>, <<1, 0>>, <<1, 1>>, <<2, 0 - 1>>, <<0, 3>>}
        /\ damp \in 0..Damping /\ Ninv \in {<<1, 1>>, <<1, 2>>}
        /\ k = 0 /\ X = <<0, 0>> /\ D = 1
        /\ use = "minres" => Det(Shifted(A, damp)) # 0
(* in lowest terms, D positive                                                          *)
Abs(z) == IF z < 0 THEN 0 - z ELSE z
RECURSIVE Gcd(_, _)
Gcd(u, v) == IF v = 0 THEN u ELSE Gcd(v, u % v)
Reduced(Y, E) == LET g == Gcd(Gcd(Abs(Y[1]), Abs(Y[2])), Abs(E))
                     s == IF E < 0 THEN 0 - 1 ELSE 1
                 IN [X |-> <<(s * Y[1]) \div g, (s * Y[2]) \div g>>, D |-> Abs(E) \div g]
First == /\ k = 0 /\ ~ Solved
         /\ LET z == Reduced(FirstX(G, c, N), FirstD(G, c, N)) IN X' = z.X /\ D' = z.D
Second == /\ k = 1 /\ ~ Solved
          /\ LET z == Reduced(<<c[1] * G[2][2] - c[2] * G[1][2], G[1][1] * c[2] - G[2][1] * c[1]>>, Det(G)) IN X' = z.X /\ D' = z.D
Step == /\ First \/ Second
        /\ k' = k + 1 /\ UNCHANGED <<use, A, b, damp, Ninv>>
Spec == Init /\ [][Step]_vars
(* A step is always possible (D is not 0), and two of them solve the system            *)
Finite == D # 0 /\ (k = 2 => Solved)
FirstIsFirst == k = 1 => IsFirst(G, c, N, X, D)
(* one step suffices exactly if p is an eigenvector of NG                               *)
Early == k = 1 => LET p == Times(N, c)
                      q == Times(N, Apply(G, p))
                  IN Solved <=> p[1] * q[2] = p[2] * q[1]
(* no multiple of p nearby is better                                                     *)
Best == (k = 1 /\ D < 16) => LET p == Times(N, c)
                     g == Apply(G, p)
                     r == Minus(c, g)
                 IN \A a \in (0 - 3)..3 : Norm2(Left(G, c, X, D), N) <= D * D * Norm2(Minus(c, Scaled(a, g)), N)
(* least squares: no other vector nearby has a smaller sum of squares                    *)
Objective(Y, E) == Norm2(Minus(Scaled(E, b), Apply(A, Y)), <<1, 1>>) + damp * damp * Norm2(Y, Ninv)
Least == (use = "lsmr" /\ Solved) =>
            \A d1, d2 \in (0 - 1)..1 : Objective(X, D) <= Objective(<<X[1] + d1 * D, X[2] + d2 * D>>, D)
(* if there are several solutions, it is the shortest one (N the identity)               *)
Shortest == (use = "lsmr" /\ Solved /\ Ninv = <<1, 1>> /\ Det(G) = 0) =>
               \A d1, d2 \in (0 - 1)..1 : Apply(G, <<d1, d2>>) = Zero(2) => Dot(X, <<d1, d2>>) = 0
Small == \A i \in 1..2 : X[i] < 40000 /\ X[i] > 0 - 40000
Emit == PrintT("@@" \o ToJson([kind |-> use, A |-> A, b |-> b, damp |-> damp, Ninv |-> Ninv, k |-> k, D |-> IF D < 0 THEN 0 - D ELSE D, solved |-> Solved]))
===================================================================================
