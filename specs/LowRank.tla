------------------------------ MODULE LowRank ------------------------------
(* Matrices whose singular value decomposition is known exactly.             *)
(*                                                                           *)
(* A = F1 F2 F3 F4 / Den^4 with                                              *)
(*     F1, F2' : m x m  integer matrices, Den * unitary  (blocks of the      *)
(*               (3,4,5) rotation with phases, units, after a permutation),  *)
(*     F2 = F2' Sigma : m x n, Sigma the singular values,                    *)
(*     F3, F4 : n x n,  Den * unitary,                                       *)
(* so the left singular vectors are the columns of F1 F2', the right ones    *)
(* the (conjugated) rows of F3 F4, and the singular values the sequence s.   *)
(*                                                                           *)
(* The module also says what a randomized decomposition with q samples and   *)
(* t power iterations is entitled to return: how many values, whether it     *)
(* must be exact, and how many leading directions are separated from the     *)
(* rest by a gap (of ratio small/lead) that every iteration squares.         *)
EXTENDS Mat, TLC, IOUtils, Json, FiniteSets
CONSTANTS Cx, MaxDim, NCases
VARIABLES n, ph, in, out
vars == <<n, ph, in, out>>
Den == 5
Min(a, b) == IF a < b THEN a ELSE b

(* 2x2 blocks: Den * unitary *)
Blocks == << << <<<<3, 0>>, <<4, 0>>>>, <<<<-4, 0>>, <<3, 0>>>> >>,
             << <<<<4, 0>>, <<3, 0>>>>, <<<<3, 0>>, <<-4, 0>>>> >>,
             << <<<<5, 0>>, <<0, 0>>>>, <<<<0, 0>>, <<-5, 0>>>> >>,
             << <<<<0, 0>>, <<5, 0>>>>, <<<<5, 0>>, <<0, 0>>>> >>,
             << <<<<3, 0>>, <<0, 4>>>>, <<<<0, 4>>, <<3, 0>>>> >>,
             << <<<<0, 3>>, <<4, 0>>>>, <<<<4, 0>>, <<0, 3>>>> >>,
             << <<<<3, 4>>, <<0, 0>>>>, <<<<0, 0>>, <<0, 5>>>> >> >>
NBlocks == IF Cx THEN Len(Blocks) ELSE 4
Lone == <<5, 0>>

(* the permutation sorting the draws p *)
Rank(p, i) == 1 + Cardinality({j \in DOMAIN p : p[j] < p[i] \/ (p[j] = p[i] /\ j < i)})
(* one layer on d dimensions: block-diagonal, then the columns permuted *)
Layer(d, l) == [i \in 1..d |-> [j \in 1..d |->
    LET c == Rank(l.p, j)
        b == (i + 1) \div 2 IN
    IF b # (c + 1) \div 2 THEN C0
    ELSE IF b * 2 > d THEN Lone
    ELSE Blocks[l.b[b]][((i - 1) % 2) + 1][((c - 1) % 2) + 1]]]

(* singular values, sorted: k large ones and r - k small ones *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x >= y IN <<x>> \o Sorted(S \ {x})
SpecOf(c) == LET d == Min(c.m, c.n)
                 top == [i \in 1..Min(c.k, d) |-> c.lead + (Min(c.k, d) - i) * c.step]
                 rest == Min(c.r, d) - Len(top) IN
             [i \in 1..d |-> IF i <= Len(top) THEN top[i] ELSE IF i - Len(top) <= rest THEN c.small ELSE 0]

RLayer(d) == [p |-> [i \in 1..d |-> RandomElement(1..10000)], b |-> [i \in 1..d |-> RandomElement(1..NBlocks)]]
Init == n = 0 /\ ph = "pick" /\ in = <<>> /\ out = <<>>
Pick == /\ ph = "pick" /\ n < NCases /\ ph' = "layers" /\ n' = n + 1
        /\ in' = [m |-> RandomElement(1..MaxDim), n |-> RandomElement(1..MaxDim), k |-> RandomElement(1..4), r |-> RandomElement(1..MaxDim),
                  t |-> RandomElement(0..3), q |-> RandomElement(1..MaxDim + 2), step |-> RandomElement({0, 1, 7}),
                  kind |-> RandomElement({"gap", "gap", "low", "any"})]
        /\ UNCHANGED out
Layers == /\ ph = "layers" /\ ph' = "spec"
          /\ LET m == IF in.kind = "gap" THEN IF in.m < 7 THEN in.m + 5 ELSE in.m ELSE in.m
                 nn == IF in.kind = "gap" THEN IF in.n < 7 THEN in.n + 5 ELSE in.n ELSE in.n IN
             in' = [in EXCEPT !.m = m, !.n = nn] @@
                   [l1 |-> RLayer(m), l2 |-> RLayer(m), l3 |-> RLayer(nn), l4 |-> RLayer(nn),
                    lead |-> IF in.kind = "gap" THEN IF in.t = 0 THEN 30000 ELSE IF in.t = 1 THEN RandomElement({1000, 30000}) ELSE 100 ELSE RandomElement(3..40),
                    small |-> IF in.kind = "low" THEN RandomElement(1..3) ELSE 1]
          /\ UNCHANGED <<n, out>>
Spectrum == /\ ph = "spec" /\ ph' = "factors"
            /\ LET c == CASE in.kind = "gap" -> [in EXCEPT !.q = IF in.q < in.k + 2 THEN in.k + 2 ELSE in.q]
                          [] in.kind = "low" -> [in EXCEPT !.q = IF in.q < in.r THEN in.r ELSE in.q, !.k = Min(in.k, in.r)]
                          [] OTHER -> in
               IN in' = c /\ out' = [s |-> SpecOf(c)]
            /\ UNCHANGED n
Factors == /\ ph = "factors" /\ ph' = "judge"
           /\ out' = [out EXCEPT !.s = @] @@
                 [f1 |-> Layer(in.m, in.l1),
                  u2 |-> Layer(in.m, in.l2),
                  f3 |-> Layer(in.n, in.l3), f4 |-> Layer(in.n, in.l4)]
           /\ UNCHANGED <<n, in>>
Judge == /\ ph = "judge" /\ ph' = "pick"
         /\ LET d == Min(in.m, in.n)
                c == Min(in.q, d)
                rank == Cardinality({i \in 1..d : out.s[i] # 0})
                k == Min(in.k, d) IN
            out' = out @@ [f2 |-> [i \in 1..in.m |-> [j \in 1..in.n |-> IF j <= d THEN CMul(out.u2[i][j], <<out.s[j], 0>>) ELSE C0]],
                           count |-> c, rank |-> rank, exact |-> rank <= c,
                           lead |-> IF in.kind = "gap" /\ c >= k + 2 /\ d > k /\ out.s[k+1] < out.s[k] THEN k ELSE 0,
                           small |-> IF d > k THEN out.s[k+1] ELSE 0, big |-> out.s[k], t |-> in.t, q |-> in.q]
         /\ UNCHANGED <<n, in>>
Next == Pick \/ Layers \/ Spectrum \/ Factors \/ Judge

(* ---- the decomposition is what it claims to be ---- *)
UnitaryTo(x, d) == MMul(x, MDag(x)) = MScale(<<Den*Den, 0>>, MId(d))
Unitary == (ph = "judge" /\ n <= 25) => UnitaryTo(out.f1, in.m) /\ UnitaryTo(out.u2, in.m) /\ UnitaryTo(out.f3, in.n) /\ UnitaryTo(out.f4, in.n)
Descending == (ph = "pick" /\ n > 0) => \A i \in 1..Len(out.s)-1 : out.s[i] >= out.s[i+1]
(* A v_j = s_j u_j for every right singular vector: F2 e_j = s_j * (column j of F2') *)
Vectors == (ph = "pick" /\ n > 0 /\ n <= 25) =>
    LET A == MMul(MMul(out.f1, out.f2), MMul(out.f3, out.f4))
        U == MMul(out.f1, out.u2)
        V == MDag(MMul(out.f3, out.f4)) IN
    \A j \in 1..Len(out.s) : LET Av == MMul(A, [i \in 1..in.n |-> <<V[i][j]>>]) IN
        \A i \in 1..in.m : Av[i][1] = CMul(<<Den*Den*Den*Den*out.s[j], 0>>, U[i][j])
(* an exact answer is demanded only where q samples can hold the rank *)
ExactFits == (ph = "pick" /\ n > 0) => (out.exact <=> \A i \in 1..Len(out.s) : i > out.count => out.s[i] = 0)

Export == (ph = "pick" /\ n > 0) =>
    Serialize(ToJson([out EXCEPT !.s = @] @@ [m |-> in.m, n |-> in.n, kind |-> in.kind]) \o "\n", "out.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
