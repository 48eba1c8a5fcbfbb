----------------------------- MODULE GateTerms -----------------------------
(* The generators of the gates of one evolution step.                       *)
(*                                                                          *)
(* A Hamiltonian: a q^2 x q^2 integer matrix for every bond and, for some   *)
(* sites, a q x q integer matrix.  The bond's gate is exp(-dtau * G) with   *)
(*     4 G(b) = 4 h2(b) + h1(s1) (x) 1 + 1 (x) h1(s2)                       *)
(* because a site has four bonds.  All matrices below carry the factor 4.   *)
EXTENDS Mat, TLC, IOUtils, Json, FiniteSets
CONSTANTS NSites, Bonds, Q, Cx, NCases, SumCheck
VARIABLES n, ph, in, out
vars == <<n, ph, in, out>>
S1(b) == Bonds[b][1]
S2(b) == Bonds[b][2]
NB == Len(Bonds)
Four == <<4, 0>>

Left(m) == MKron(m, MId(Q))
Right(m) == MKron(MId(Q), m)
Gen(c, b) == LET g0 == MScale(Four, c.h2[b])
                 g1 == IF c.has[S1(b)] THEN MAdd(g0, Left(c.h1[S1(b)])) ELSE g0
             IN IF c.has[S2(b)] THEN MAdd(g1, Right(c.h1[S2(b)])) ELSE g1

(* ---- the whole Hamiltonian on the unit cell's torus ---- *)
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
Dim == Pow(Q, NSites)
Digit(r, s) == ((r - 1) \div Pow(Q, NSites - s)) % Q
Same(r, c, T) == \A s \in 1..NSites : s \in T \/ Digit(r, s) = Digit(c, s)
Emb2(m, i, j) == [r \in 1..Dim |-> [c \in 1..Dim |-> IF Same(r, c, {i, j})
                     THEN m[Digit(r, i)*Q + Digit(r, j) + 1][Digit(c, i)*Q + Digit(c, j) + 1] ELSE C0]]
Emb1(m, i) == [r \in 1..Dim |-> [c \in 1..Dim |-> IF Same(r, c, {i}) THEN m[Digit(r, i) + 1][Digit(c, i) + 1] ELSE C0]]
RECURSIVE MSumTo(_, _)
MSumTo(f, k) == IF k = 0 THEN MZero(Dim) ELSE MAdd(MSumTo(f, k - 1), f[k])
Total(c) == MAdd(MSumTo([b \in 1..NB |-> Emb2(MScale(Four, c.h2[b]), S1(b), S2(b))], NB),
                 MSumTo([s \in 1..NSites |-> IF c.has[s] THEN Emb1(MScale(Four, c.h1[s]), s) ELSE MZero(Dim)], NSites))
SumOfGens(c) == MSumTo([b \in 1..NB |-> Emb2(Gen(c, b), S1(b), S2(b))], NB)

(* ---- random cases ---- *)
RC(lo, hi) == <<RandomElement(lo..hi), IF Cx THEN RandomElement(lo..hi) ELSE 0>>
RMat(d) == [i \in 1..d |-> [j \in 1..d |-> IF RandomElement(1..3) = 1 THEN RC(-2, 2) ELSE C0]]
Init == n = 0 /\ ph = "pick" /\ in = <<>> /\ out = <<>>
Pick == /\ ph = "pick" /\ n < NCases /\ ph' = "eval" /\ n' = n + 1 /\ UNCHANGED out
        /\ in' = [h2 |-> [b \in 1..NB |-> RMat(Q*Q)], h1 |-> [s \in 1..NSites |-> RMat(Q)],
                  has |-> LET d == RandomElement(0..3) IN [s \in 1..NSites |-> RandomElement(1..3) <= d]]
Evaluate == ph = "eval" /\ ph' = "pick" /\ out' = [b \in 1..NB |-> Gen(in, b)] /\ UNCHANGED <<n, in>>
Next == Pick \/ Evaluate

SumsUp == (SumCheck /\ ph = "pick" /\ n > 0 /\ n <= 3) => SumOfGens(in) = Total(in)
Export == (ph = "pick" /\ n > 0) =>
    Serialize(ToJson([c |-> in, g |-> out]) \o "\n", "out.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
