------------------------------- MODULE Torus -------------------------------
(* Exact evolution of a state on the finite torus made of one unit cell.     *)
(*                                                                           *)
(* The state starts as a product of Gaussian-integer vectors and is held as  *)
(* its full vector of amplitudes.  An evolution step applies every bond's    *)
(* gate once, in the order of the bond list, the next step in the reversed   *)
(* order.  A gate is the exponential of a generator N with N N = 0, hence    *)
(* exactly I + N; N is a sum of NTerm products S (x) B (or B (x) S) with the *)
(* S mutually annihilating, so a bond touched once per step by it gains a    *)
(* factor NTerm+1 of Schmidt rank: the harness picks the bond dimension such *)
(* that this always fits, and the library must then reproduce the state.     *)
EXTENDS Mat, TLC, IOUtils, Json, FiniteSets
CONSTANTS NSites, Bonds, Q, Cx, NTerm, NActive, Steps, Max, Big, NCases
VARIABLES n, ph, in, psi, k
vars == <<n, ph, in, psi, k>>

NBonds == Len(Bonds)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Size == Pow(Q, NSites)
(* basis state number x (from 0): digit of site i (from 1), the first site is the slowest *)
Digit(x, i) == (x \div Pow(Q, NSites - i)) % Q
Put(x, i, d) == x + (d - Digit(x, i)) * Pow(Q, NSites - i)

RECURSIVE CProd(_, _, _)
CProd(v, x, i) == IF i = 0 THEN C1 ELSE CMul(CProd(v, x, i - 1), v[i][Digit(x, i) + 1])
Product(v) == [x \in 1..Size |-> CProd(v, x - 1, NSites)]

(* amplitudes after applying gate g to sites i, j: rows of g are the new states of (i, j) *)
Apply(v, g, i, j) == [x \in 1..Size |->
    LET r == Digit(x-1, i)*Q + Digit(x-1, j) + 1 IN
    CSum([c \in 1..Q*Q |-> IF g[r][c] = C0 THEN C0
                           ELSE CMul(g[r][c], v[Put(Put(x-1, i, (c-1) \div Q), j, (c-1) % Q) + 1])], Q*Q)]

(* S_t for t = 1..NTerm: a single unit entry; either all in one row or all in one column, off the diagonal *)
Unit(r, c) == [i \in 1..Q |-> [j \in 1..Q |-> IF i = r /\ j = c THEN C1 ELSE C0]]
Others(r) == LET RECURSIVE f(_)
                 f(i) == IF i > Q THEN <<>> ELSE (IF i = r THEN <<>> ELSE <<i>>) \o f(i + 1) IN f(1)
SOf(c, t) == IF c.row THEN Unit(c.r, Others(c.r)[t]) ELSE Unit(Others(c.r)[t], c.r)
RECURSIVE Gen(_, _)
Gen(c, t) == IF t = 0 THEN MZero(Q*Q)
             ELSE MAdd(Gen(c, t - 1), IF c.side = 1 THEN MKron(SOf(c, t), c.b[t]) ELSE MKron(c.b[t], SOf(c, t)))
Generator(b) == IF in.on[b] THEN Gen(in.g[b], NTerm) ELSE MZero(Q*Q)
(* one bond's gate may be dominated by the identity, Big I + N, leaving a small Schmidt value *)
ScaleOf(b) == IF b = in.big THEN Big ELSE 1
GateOf(b) == MAdd(MScale(<<ScaleOf(b), 0>>, MId(Q*Q)), Generator(b))
(* the k-th bond updated overall *)
Nth(m) == LET s == (m - 1) \div NBonds
              i == ((m - 1) % NBonds) + 1 IN IF s % 2 = 0 THEN i ELSE NBonds + 1 - i

(* the argument keeps TLC from drawing once and for all *)
RC(m) == <<RandomElement(-m..m), IF Cx THEN RandomElement(-m..m) ELSE 0>>
Init == n = 0 /\ ph = "pick" /\ in = <<>> /\ psi = <<>> /\ k = 0
Pick == /\ ph = "pick" /\ n < NCases /\ n' = n + 1 /\ ph' = "fix" /\ k' = 0
        /\ in' = [v |-> [s \in 1..NSites |-> [a \in 1..Q |-> RC(Max)]],
                  g |-> [b \in 1..NBonds |-> [side |-> RandomElement(1..2), row |-> RandomElement({TRUE, FALSE}), r |-> RandomElement(1..Q),
                                              b |-> [t \in 1..NTerm |-> [i \in 1..Q |-> [j \in 1..Q |-> RC(Max)]]]]],
                  p |-> [b \in 1..NBonds |-> RandomElement(1..1000)], big |-> 0]
        /\ UNCHANGED psi
(* nonzero vectors; the NActive bonds with the smallest p get a nontrivial gate *)
Fix == /\ ph = "fix" /\ ph' = "start"
       /\ in' = [v |-> [s \in 1..NSites |-> IF \A a \in 1..Q : in.v[s][a] = C0 THEN [in.v[s] EXCEPT ![(s % Q) + 1] = C1] ELSE in.v[s]],
                 g |-> in.g, p |-> in.p,
                 big |-> CHOOSE b \in 1..NBonds : \A c \in 1..NBonds : in.p[b] < in.p[c] \/ (in.p[b] = in.p[c] /\ b <= c),
                 on |-> [b \in 1..NBonds |->
                     Cardinality({c \in 1..NBonds : in.p[c] < in.p[b] \/ (in.p[c] = in.p[b] /\ c < b)}) < NActive]]
       /\ UNCHANGED <<n, psi, k>>
Start == /\ ph = "start" /\ ph' = "run" /\ psi' = Product(in.v) /\ k' = 0 /\ UNCHANGED <<n, in>>
Update == /\ ph = "run" /\ k < NBonds * Steps /\ k' = k + 1
          /\ LET b == Nth(k + 1) IN psi' = IF in.on[b] THEN Apply(psi, GateOf(b), Bonds[b][1], Bonds[b][2]) ELSE psi
          /\ UNCHANGED <<n, ph, in>>
Done == ph = "run" /\ k = NBonds * Steps /\ ph' = "pick" /\ UNCHANGED <<n, in, psi, k>>
Next == Pick \/ Fix \/ Start \/ Update \/ Done

(* the exponential of a generator is exactly I + N *)
Nilpotent == (ph = "start" /\ n <= 20) => \A b \in 1..NBonds : MMul(Generator(b), Generator(b)) = MZero(Q*Q)
(* gates are invertible (up to the factor Big^2, Big I - N undoes Big I + N): no state is lost *)
Invertible == (ph = "run" /\ k > 0 /\ n <= 3 /\ Big <= 10) => LET b == Nth(k) IN
    LET u == Apply(psi, MSub(MScale(<<ScaleOf(b), 0>>, MId(Q*Q)), Generator(b)), Bonds[b][1], Bonds[b][2]) IN Apply(u, GateOf(b), Bonds[b][1], Bonds[b][2]) = [x \in 1..Size |-> CMul(<<ScaleOf(b) * ScaleOf(b), 0>>, psi[x])]
NonZero == ph = "run" => \E x \in 1..Size : psi[x] # C0

Export == (ph = "pick" /\ n > 0) =>
    Serialize(ToJson([v |-> in.v, h |-> [b \in 1..NBonds |-> Generator(b)], m |-> [b \in 1..NBonds |-> ScaleOf(b)], on |-> in.on, psi |-> psi]) \o "\n", "out.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
