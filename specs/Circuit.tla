------------------------------ MODULE Circuit ------------------------------
(* States of the infinite lattice whose local expectation values are exact.  *)
(*                                                                           *)
(* Two-level systems on Z x Z, in a product state that repeats with the unit *)
(* cell (a Gaussian-integer vector for every site of the cell).  A circuit   *)
(* applies gates one class after the other; the class of a bond of the cell  *)
(* is that bond and all its translations, which are disjoint.  The gate is   *)
(* the controlled Pauli                                                      *)
(*       U = (1 + P1 + Q2 - P1 Q2) / 2        P, Q in {X, Y, Z},             *)
(* its own inverse and of Schmidt rank two.  In the Heisenberg picture it    *)
(* maps strings of Pauli matrices to such strings:                           *)
(*       U (A x B) U = (A P^b) x (Q^a B),   a = A anticommutes with P, ...   *)
(* so every one- and two-site expectation value of the infinite state is a   *)
(* signed product of the cell's one-site values: for each string, sgn and    *)
(* the number of times each (site of the cell, letter) occurs.               *)
EXTENDS Lattice, TLC, Json, IOUtils, FiniteSets
CONSTANTS NX, NY, Real, MaxGates, Max, NCases, Calls
VARIABLES n, ph, in, k, str
vars == <<n, ph, in, k, str>>

(* letters 0 = 1, 1 = X, 2 = Y, 3 = Z; phases are powers of i *)
MulL(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a = b THEN 0 ELSE 6 - a - b
MulP(a, b) == IF a = 0 \/ b = 0 \/ a = b THEN 0 ELSE IF (b - a) % 3 = 1 THEN 1 ELSE 3
Anti(a, b) == a # 0 /\ b # 0 /\ a # b

Class(p) == <<p[1] % NX, p[2] % NY>>
To(p, d) == <<p[1] + Dx(d), p[2] + Dy(d)>>
Letter(s, p) == IF p \in DOMAIN s.l THEN s.l[p] ELSE 0

At0(s, p) == p \in DOMAIN s.l

(* the bonds of the cell, in the order in which the library lists them *)
NB == 2 * NX * NY
CellBonds == LET l == BondSeq(NX, NY) IN [i \in 1..NB |-> [s |-> l[i].s1, d |-> l[i].k]]

(* conjugation of string s by all translations of gate g *)
Conj(s, g) ==
    LET b == CellBonds[g.b]
        second == Class(To(b.s, b.d))
        bases == {p \in DOMAIN s.l : Class(p) = b.s} \cup
                 {To(p, Opp(b.d)) : p \in {q \in DOMAIN s.l : Class(q) = second}}
        a(p) == Anti(Letter(s, p), g.p)
        c(p) == Anti(Letter(s, To(p, b.d)), g.q)
        new1(p) == IF c(p) THEN MulL(Letter(s, p), g.p) ELSE Letter(s, p)
        new2(p) == IF a(p) THEN MulL(g.q, Letter(s, To(p, b.d))) ELSE Letter(s, To(p, b.d))
        phase(p) == (IF c(p) THEN MulP(Letter(s, p), g.p) ELSE 0) + (IF a(p) THEN MulP(g.q, Letter(s, To(p, b.d))) ELSE 0)
        RECURSIVE tot(_)
        tot(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN phase(p) + tot(S \ {p})
        dom == DOMAIN s.l \cup bases \cup {To(p, b.d) : p \in bases}
        val(p) == IF p \in bases THEN new1(p)
                  ELSE IF To(p, Opp(b.d)) \in bases THEN new2(To(p, Opp(b.d)))
                  ELSE Letter(s, p)
        (* the bond between p and its partner carries information: something on both sides *)
        carries(p) == (At0(s, p) \/ new1(p) # 0) /\ (At0(s, To(p, b.d)) \/ new2(p) # 0)
        (* ... and it does not lie on a line through the sites looked at *)
        aside(p) == IF Dx(b.d) = 0 THEN p[1] \notin s.cols ELSE p[2] \notin s.rows
    IN [s EXCEPT !.l = [p \in {q \in dom : val(q) # 0} |-> val(p)], !.ph = (s.ph + tot(bases)) % 4,
                 !.ok = s.ok /\ ~\E p \in bases : carries(p) /\ aside(p)]

Site0 == [i \in 1..NX*NY |-> <<(i - 1) \div NY, (i - 1) % NY>>]
(* a string remembers the rows and columns of the sites it belongs to *)
Str(l, p, q) == [l |-> l, ph |-> 0, rows |-> {p[2], q[2]}, cols |-> {p[1], q[1]}, ok |-> TRUE]
One(p, x) == Str([q \in {p} |-> x], p, p)
Two(p, x, q, y) == Str([r \in (IF x = 0 THEN {} ELSE {p}) \cup (IF y = 0 THEN {} ELSE {q}) |-> IF r = p THEN x ELSE y], p, q)
NOne == 3 * NX * NY
NTwo == 15 * 2 * NX * NY
(* the strings to evaluate: every letter on every site, every pair on every bond *)
Strings == [i \in 1..NOne |-> One(Site0[((i - 1) \div 3) + 1], ((i - 1) % 3) + 1)] \o
           [i \in 1..NTwo |-> LET b == CellBonds[((i - 1) \div 15) + 1]
                                  x == ((i - 1) % 15) + 1 IN Two(b.s, x \div 4, To(b.s, b.d), x % 4)]

Letters == IF Real THEN {1, 3} ELSE {1, 2, 3}
R(m) == RandomElement(-m..m)
Init == n = 0 /\ ph = "pick" /\ in = <<>> /\ k = 0 /\ str = <<>>
Pick == /\ ph = "pick" /\ n < NCases /\ n' = n + 1 /\ ph' = "fix"
        /\ in' = [v |-> [i \in 1..NX*NY |-> <<<<R(Max), IF Real THEN 0 ELSE R(Max)>>, <<R(Max), IF Real THEN 0 ELSE R(Max)>>>>],
                  w |-> [b \in 1..2*NX*NY |-> RandomElement(1..10000)],
                  g |-> [b \in 1..2*NX*NY |-> [b |-> b, p |-> RandomElement(Letters), q |-> RandomElement(Letters)]],
                  call |-> [b \in 1..NB |-> RandomElement(0..Calls)],
                  ng |-> RandomElement(1..MaxGates)]
        /\ UNCHANGED <<k, str>>
(* nonzero vectors, and the order of the gates.  Free circuits (Calls = 0):  *)
(* the gates in the order of their draws w, the first ng of them.  Circuits  *)
(* made by calls to evolve: a call takes its gates in the order of the bond  *)
(* list, which every sweep over it reverses.                                 *)
Rank(w, i) == 1 + Cardinality({j \in DOMAIN w : w[j] < w[i] \/ (w[j] = w[i] /\ j < i)})
When(b) == IF Calls = 0 THEN in.w[b]
           ELSE in.call[b] * (NB + 1) + (IF in.call[b] % 2 = 1 THEN b ELSE NB - b)
Chosen == {b \in 1..NB : Calls = 0 \/ in.call[b] > 0}
Ordered == LET w == [b \in Chosen |-> When(b)] IN
           [r \in 1..(IF Calls = 0 THEN in.ng ELSE Cardinality(Chosen)) |-> CHOOSE b \in Chosen : Rank(w, b) = r]
Fix == /\ ph = "fix" /\ ph' = "run" /\ n' = n
       /\ in' = [v |-> [i \in 1..NX*NY |-> IF in.v[i] = <<<<0, 0>>, <<0, 0>>>> THEN <<<<1, 0>>, <<0, 0>>>> ELSE in.v[i]],
                 g |-> LET o == Ordered IN [r \in 1..Len(o) |-> [b |-> o[r], call |-> in.call[o[r]], p |-> in.g[o[r]].p, q |-> in.g[o[r]].q]]]
       /\ str' = Strings /\ k' = Len(in'.g)
Evolve == /\ ph = "run" /\ k > 0 /\ k' = k - 1 /\ UNCHANGED <<n, ph, in>>
          /\ str' = [i \in 1..Len(str) |-> Conj(str[i], in.g[k])]
Done == ph = "run" /\ k = 0 /\ ph' = "pick" /\ UNCHANGED <<n, in, k, str>>
Next == Pick \/ Fix \/ Evolve \/ Done

(* ---- what unitary evolution preserves ---- *)
Hermitian == \A i \in 1..Len(str) : str[i].ph \in {0, 2}
NotTrivial == \A i \in 1..Len(str) : DOMAIN str[i].l # {}
(* strings of one site keep their commutation relations *)
Parity(s, t) == Cardinality({p \in DOMAIN s.l \cap DOMAIN t.l : Anti(s.l[p], t.l[p])}) % 2
Algebra == (ph = "run" /\ n <= 3) => \A i, j \in 1..NOne : Parity(str[i], str[j]) = IF (i - 1) \div 3 = (j - 1) \div 3 /\ i # j THEN 1 ELSE 0
(* gates are their own inverses *)
Involution == (ph = "run" /\ k < Len(in.g) /\ n <= 5) => \A i \in 1..NOne : LET g == in.g[k + 1] IN Conj(Conj(str[i], g), g).l = str[i].l /\ Conj(Conj(str[i], g), g).ph = str[i].ph

Counts(s) == [i \in 1..NX*NY |-> [x \in 1..3 |-> Cardinality({p \in DOMAIN s.l : Class(p) = Site0[i] /\ s.l[p] = x})]]
Export == (ph = "run" /\ k = 0) =>
    Serialize(ToJson([v |-> in.v, gates |-> [i \in 1..Len(in.g) |-> [s |-> CellBonds[in.g[i].b].s, d |-> CellBonds[in.g[i].b].d, p |-> in.g[i].p, q |-> in.g[i].q, call |-> in.g[i].call]], bonds |-> CellBonds,
                      vals |-> [i \in 1..Len(str) |-> [sg |-> IF str[i].ph = 0 THEN 1 ELSE -1, c |-> Counts(str[i]), ok |-> str[i].ok]]]) \o "\n", "out.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
