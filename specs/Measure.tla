------------------------------ MODULE Measure ------------------------------
(* Expectation values of product states of Gaussian-integer vectors, exact. *)
(*                                                                          *)
(* A case: a vector at every site, an operator at every site and bond for   *)
(* the Hamiltonian (sites may have none) and for each named observable.     *)
(* Reported: energy = sum of all one- and two-site expectation values over  *)
(* the number of sites; every observable averaged over all sites or bonds.  *)
(* <O> = Re(<v|O|v>)/<v|v>, the operator's rows contracted with the bra, a  *)
(* bond operator's first factor acting on the bond's first site.            *)
EXTENDS Mat, TLC, IOUtils, Json, FiniteSets
CONSTANTS NSites, Bonds, Q, Cx, NOb1, NOb2, NCases
VARIABLES n, ph, in, out
vars == <<n, ph, in, out>>

(* rationals <<num, den>>, den > 0, reduced *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Rat(a, b) == LET g == Gcd(Abs(a), b) IN <<a \div g, b \div g>>
RAdd(x, y) == LET g == Gcd(x[2], y[2]) IN Rat(x[1]*(y[2] \div g) + y[1]*(x[2] \div g), x[2]*(y[2] \div g))
RDiv(x, k) == LET g == Gcd(Abs(x[1]), k) IN <<x[1] \div g, x[2]*(k \div g)>>
RECURSIVE RSum(_, _)
RSum(f, m) == IF m = 0 THEN <<0, 1>> ELSE RAdd(RSum(f, m - 1), f[m])

Norm2(v) == ISum([a \in 1..Len(v) |-> CAbs2(v[a])], Len(v))
Kron2(v, w) == [i \in 1..Len(v)*Len(w) |-> CMul(v[((i-1) \div Len(w)) + 1], w[((i-1) % Len(w)) + 1])]
Sandwich(v, o) == CSum([i \in 1..Len(v) |-> CMul(CConj(v[i]), CSum([j \in 1..Len(v) |-> CMul(o[i][j], v[j])], Len(v)))], Len(v))
Expect(v, o) == Rat(Sandwich(v, o)[1], Norm2(v))
S1(b) == Bonds[b][1]
S2(b) == Bonds[b][2]
NBonds == Len(Bonds)

SiteVals(psi, ops, has) == [s \in 1..NSites |-> IF has[s] THEN Expect(psi[s], ops[s]) ELSE <<0, 1>>]
BondVals(psi, ops) == [b \in 1..NBonds |-> Expect(Kron2(psi[S1(b)], psi[S2(b)]), ops[b])]
All == [s \in 1..NSites |-> TRUE]
Energy(psi, h1, has, h2) ==
    RDiv(RAdd(RSum(SiteVals(psi, h1, has), NSites), RSum(BondVals(psi, h2), NBonds)), NSites)
Eval(c) == [energy |-> Energy(c.psi, c.h1, c.has, c.h2),
            o1 |-> [k \in 1..NOb1 |-> RDiv(RSum(SiteVals(c.psi, c.o1[k], All), NSites), NSites)],
            o2 |-> [k \in 1..NOb2 |-> RDiv(RSum(BondVals(c.psi, c.o2[k]), NBonds), NBonds)]]

(* ---- random cases ---- *)
RC(lo, hi) == <<RandomElement(lo..hi), IF Cx THEN RandomElement(lo..hi) ELSE 0>>
RVec(x) == LET v == [a \in 1..Q |-> RC(-1, 1)] IN v
RMat(d) == [i \in 1..d |-> [j \in 1..d |-> IF RandomElement(1..3) = 1 THEN RC(-2, 2) ELSE C0]]
FixV(v) == IF Norm2(v) = 0 THEN [v EXCEPT ![1] = C1] ELSE v

Init == n = 0 /\ ph = "pick" /\ in = <<>> /\ out = <<>>
Pick == /\ ph = "pick" /\ n < NCases /\ ph' = "fix" /\ n' = n + 1
        /\ in' = [psi |-> [s \in 1..NSites |-> RVec(s)],
                  h1 |-> [s \in 1..NSites |-> RMat(Q)],
                  has |-> [s \in 1..NSites |-> RandomElement(1..3) # 1],
                  h2 |-> [b \in 1..NBonds |-> RMat(Q*Q)],
                  o1 |-> [k \in 1..NOb1 |-> [s \in 1..NSites |-> RMat(Q)]],
                  o2 |-> [k \in 1..NOb2 |-> [b \in 1..NBonds |-> RMat(Q*Q)]]]
        /\ UNCHANGED out
Fix == /\ ph = "fix" /\ ph' = "eval" /\ in' = [in EXCEPT !.psi = [s \in 1..NSites |-> FixV(in.psi[s])]] /\ UNCHANGED <<n, out>>
Evaluate == /\ ph = "eval" /\ ph' = "pick" /\ out' = Eval(in) /\ UNCHANGED <<n, in>>
Next == Pick \/ Fix \/ Evaluate

(* values do not depend on the scale or phase of the state's tensors *)
ScaleFree == (ph = "pick" /\ n > 0 /\ n <= 3) =>
    \A z \in {<<2, 0>>, <<-1, 0>>, <<1, 1>>} : Eval([in EXCEPT !.psi[1] = [a \in 1..Q |-> CMul(z, @[a])]]) = out
(* swapping a bond's sites together with the operator's factors changes nothing *)
SwapOp(o) == [i \in 1..Q*Q |-> [j \in 1..Q*Q |->
    o[((i-1) % Q)*Q + ((i-1) \div Q) + 1][((j-1) % Q)*Q + ((j-1) \div Q) + 1]]]
SwapFree == (ph = "pick" /\ n > 0 /\ n <= 3) => \A b \in 1..NBonds :
    Expect(Kron2(in.psi[S1(b)], in.psi[S2(b)]), in.h2[b]) = Expect(Kron2(in.psi[S2(b)], in.psi[S1(b)]), SwapOp(in.h2[b]))

Export == (ph = "pick" /\ n > 0) =>
    Serialize(ToJson([c |-> in, v |-> out]) \o "\n", "out.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
