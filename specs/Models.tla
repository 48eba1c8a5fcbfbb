------------------------------- MODULE Models -------------------------------
(* The built-in models as documented, and what they predict for product      *)
(* states.  All matrices carry a common factor 4, parameters are halves      *)
(* (params.p stands for p/2), so everything is an integer times 1/8.         *)
(*                                                                           *)
(*   Ising:      -jz Z(x)Z on every bond, -hx X on every site;               *)
(*               observables sx = X, sz = Z; initial state |0>               *)
(*   Heisenberg:  J S.S  on every bond, S = (X, Y, Z)/2, no site term;       *)
(*               observables (-1)^(x+y) X and (-1)^(x+y) Z; Neel state       *)
EXTENDS Measure
CONSTANTS Cell        \* <<nx, ny>>

SiteXY(s) == <<(s - 1) \div Cell[2], (s - 1) % Cell[2]>>
Even(xy) == (xy[1] + xy[2]) % 2 = 0
(* 8 * the term *)
Ising2(p) == MScale(<<-4*p.jz, 0>>, MKron(SZ, SZ))
Ising1(p) == MScale(<<-4*p.hx, 0>>, SX)
Heis2(p) == MScale(<<p.J, 0>>, MAdd(MAdd(MKron(SX, SX), MKron(SY, SY)), MKron(SZ, SZ)))
Two(m, p) == IF m = "ising" THEN Ising2(p) ELSE Heis2(p)
One(m, p) == IF m = "ising" THEN Ising1(p) ELSE MZero(2)
Sgn(m, xy) == IF m = "heisenberg" /\ ~Even(xy) THEN <<-1, 0>> ELSE C1
ObX(m, xy) == MScale(Sgn(m, xy), SX)
ObZ(m, xy) == MScale(Sgn(m, xy), SZ)
InitState(m, xy) == IF m = "heisenberg" /\ ~Even(xy) THEN <<0, 1>> ELSE <<1, 0>>

(* the bond term does not depend on the direction in which the bond is read *)
Symmetric == \A m \in {"ising", "heisenberg"}, j \in -3..3 :
    LET p == [jz |-> j, hx |-> 1, J |-> j] IN SwapOp(Two(m, p)) = Two(m, p) /\ MReal(Two(m, p))
(* the Heisenberg bond: triplet J/4, singlet -3J/4 *)
HeisSpectrum == LET h == Heis2([jz |-> 0, hx |-> 0, J |-> 2])   \* J = 1
                    t == MSub(h, MScale(<<2, 0>>, MId(4)))       \* h - 8/4
                    u == MAdd(h, MScale(<<6, 0>>, MId(4)))       \* h + 8*3/4
                IN MMul(t, u) = MZero(4) /\ MTrace(h) = C0

MCase(m, p, psi) == [psi |-> psi, h1 |-> [s \in 1..NSites |-> One(m, p)], has |-> All,
                  h2 |-> [b \in 1..NBonds |-> Two(m, p)],
                  o1 |-> << [s \in 1..NSites |-> ObX(m, SiteXY(s))], [s \in 1..NSites |-> ObZ(m, SiteXY(s))] >>, o2 |-> <<>>]
MPick == /\ ph = "pick" /\ n < NCases /\ ph' = "fix" /\ n' = n + 1
         /\ in' = [psi |-> [s \in 1..NSites |-> RVec(s)], model |-> RandomElement({"ising", "heisenberg"}),
                   p |-> [jz |-> RandomElement(-4..4), hx |-> RandomElement(-4..4), J |-> RandomElement(-4..4)]]
         /\ UNCHANGED out
MFix == /\ ph = "fix" /\ ph' = "eval" /\ in' = [in EXCEPT !.psi = [s \in 1..NSites |-> FixV(in.psi[s])]] /\ UNCHANGED <<n, out>>
MEval == /\ ph = "eval" /\ ph' = "pick" /\ UNCHANGED <<n, in>>
         /\ LET e == Eval(MCase(in.model, in.p, in.psi)) IN
            out' = [energy |-> RDiv(e.energy, 8), sx |-> e.o1[1], sz |-> e.o1[2],
                    two |-> Two(in.model, in.p), one |-> One(in.model, in.p),
                    obx |-> [s \in 1..NSites |-> ObX(in.model, SiteXY(s))], obz |-> [s \in 1..NSites |-> ObZ(in.model, SiteXY(s))],
                    ini |-> [s \in 1..NSites |-> InitState(in.model, SiteXY(s))]]
MNext == MPick \/ MFix \/ MEval
=============================================================================
