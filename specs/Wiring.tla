------------------------------- MODULE Wiring -------------------------------
(* Which tensor legs are joined in the density matrices of a site and of a   *)
(* bond.  Everything is derived from positions on the plane:                 *)
(*                                                                           *)
(*   * the site tensors (ket and bra) sit at the site's position and have a  *)
(*     leg in each direction; legs of a ket and a bra live on two layers;    *)
(*   * edge E[j] of a site lies next to it in direction j+1, corner C[j]     *)
(*     between directions j and j+1; their boundary legs run along the       *)
(*     boundary, an edge's last two legs point inward to ket and bra;        *)
(*   * boundary legs are listed counterclockwise-first: edge (d-1, d+1),     *)
(*     corner (-(j+1), -(j)) as directions;                                  *)
(*   * two legs are joined exactly if they point at each other on the same   *)
(*     layer.                                                                *)
(*                                                                           *)
(* A case fills the tensors with a few nonzero entries such that one chosen  *)
(* assignment of values to all links contributes, possibly breaks one leg of *)
(* one tensor, and evaluates the density matrix exactly.                     *)
EXTENDS Lattice, Mat, TLC, Json, IOUtils
CONSTANTS NX, NY, Cx, NCases, Kind         \* Kind: "site" or "bond"
VARIABLES n, ph, in, lv, ten, out
vars == <<n, ph, in, lv, ten, out>>

Step(p, d) == <<p[1] + Dx(d), p[2] + Dy(d)>>

(* ---- the nodes of the diagram: position, tensor and legs [to, layer] ---- *)
KetNode(s, p) == [t |-> <<"A", s, 0>>, pos |-> p, kind |-> "ket",
                  legs |-> [d \in 1..4 |-> [to |-> d - 1, ly |-> "ket"]]]
BraNode(s, p) == [t |-> <<"A", s, 0>>, pos |-> p, kind |-> "bra",
                  legs |-> [d \in 1..4 |-> [to |-> d - 1, ly |-> "bra"]]]
EdgeNode(s, p, j) == LET d == (j + 1) % 4 IN
    [t |-> <<"E", s, j>>, pos |-> Step(p, d), kind |-> "env",
     legs |-> << [to |-> (d + 3) % 4, ly |-> "bnd"], [to |-> (d + 1) % 4, ly |-> "bnd"],
                 [to |-> Opp(d), ly |-> "ket"], [to |-> Opp(d), ly |-> "bra"] >>]
CornerNode(s, p, j) == LET e == (j + 1) % 4 IN
    [t |-> <<"C", s, j>>, pos |-> Step(Step(p, j), e), kind |-> "env",
     legs |-> << [to |-> Opp(e), ly |-> "bnd"], [to |-> Opp(j), ly |-> "bnd"] >>]

(* environment of a site except towards direction x (x = 9: all around) *)
EnvOf(s, p, x) ==
    LET E == SelectSeq(<<0, 1, 2, 3>>, LAMBDA j : (j + 1) % 4 # x)
        C == SelectSeq(<<0, 1, 2, 3>>, LAMBDA j : j # x /\ (j + 1) % 4 # x)
    IN [i \in 1..Len(E) |-> EdgeNode(s, p, E[i])] \o [i \in 1..Len(C) |-> CornerNode(s, p, C[i])]
Diagram(c) ==
    IF Kind = "site"
    THEN <<KetNode(c.s, <<0, 0>>), BraNode(c.s, <<0, 0>>)>> \o EnvOf(c.s, <<0, 0>>, 9)
    ELSE LET s2 == Nb(c.s, c.k, NX, NY)
             p2 == Step(<<0, 0>>, c.k) IN
         <<KetNode(c.s, <<0, 0>>), BraNode(c.s, <<0, 0>>), KetNode(s2, p2), BraNode(s2, p2)>>
         \o EnvOf(c.s, <<0, 0>>, c.k) \o EnvOf(s2, p2, Opp(c.k))

Link(p, l) == LET q == Step(p, l.to) IN
    [a |-> IF l.to \in {0, 3} THEN q ELSE p, d |-> IF l.to \in {0, 2} THEN 2 ELSE 1, ly |-> l.ly]
LinksOf(dg) == UNION {{Link(dg[i].pos, dg[i].legs[j]) : j \in 1..Len(dg[i].legs)} : i \in 1..Len(dg)}
(* every leg is joined to exactly one other *)
Closed(dg) == \A l \in LinksOf(dg) :
    Cardinality({<<i, j>> \in (1..Len(dg)) \X (1..4) : j <= Len(dg[i].legs) /\ Link(dg[i].pos, dg[i].legs[j]) = l}) = 2

(* ---- choosing a case ---- *)
Init == n = 0 /\ ph = "pick" /\ in = [s |-> <<0, 0>>, k |-> 0, D |-> 1, q |-> 1] /\ lv = <<>> /\ ten = <<>> /\ out = <<>>
Pick == /\ ph = "pick" /\ n < NCases /\ n' = n + 1 /\ ph' = "links"
        /\ in' = [s |-> <<RandomElement(0..NX-1), RandomElement(0..NY-1)>>, k |-> n % 4, D |-> RandomElement(2..3),
                  q |-> RandomElement({2, 3, 5}), brk |-> (n \div 4) % 3, extra |-> RandomElement(0..2)]
        /\ UNCHANGED <<lv, ten, out>>
(* a dimension and a value for every link, a physical value for every site and layer *)
Links == /\ ph = "links" /\ ph' = "fill"
         /\ lv' = [l |-> [x \in LinksOf(Diagram(in)) |->
                       LET d == IF x.ly = "bnd" THEN RandomElement(1..3) ELSE in.D IN [dim |-> d, r |-> RandomElement(0..5)]],
                   p |-> [x \in 1..4 |-> RandomElement(0..5)],
                   z |-> [x \in 1..14 |-> <<RandomElement({-2, -1, 1, 2}), IF Cx THEN RandomElement(-1..1) ELSE 0>>],
                   x |-> [j \in 1..5 |-> RandomElement(0..5)], t |-> RandomElement(1..14), b |-> RandomElement(1..4)]
         /\ UNCHANGED <<n, in, out, ten>>
Val(x) == lv.l[x].r % lv.l[x].dim
Dim(x) == lv.l[x].dim
(* the entry of node i in the chosen assignment *)
Main(dg, i) == [j \in 1..Len(dg[i].legs) |-> Val(Link(dg[i].pos, dg[i].legs[j]))]
               \o (IF dg[i].kind = "env" THEN <<>> ELSE <<lv.p[i] % in.q>>)
Dims(dg, i) == [j \in 1..Len(dg[i].legs) |-> Dim(Link(dg[i].pos, dg[i].legs[j]))]
               \o (IF dg[i].kind = "env" THEN <<>> ELSE <<in.q>>)
TensorIds(dg) == {dg[i].t : i \in 1..Len(dg)}
(* distinct entries of a tensor: from every node it appears at, plus an occasional extra one *)
Broken(dg, i) == LET m == Main(dg, i)
                     j == ((lv.b - 1) % Len(dg[i].legs)) + 1 IN
                 [m EXCEPT ![j] = (@ + 1) % Dims(dg, i)[j]]
RECURSIVE Entries(_, _, _)
Entries(dg, t, i) == IF i = 0 THEN {} ELSE
    Entries(dg, t, i - 1) \cup (IF dg[i].t # t THEN {}
        ELSE (IF in.brk = 2 /\ ((lv.t - 1) % Len(dg)) + 1 = i THEN {Broken(dg, i)} ELSE {Main(dg, i)})
             \cup (IF in.extra > 0 /\ i = ((lv.t + 5) % Len(dg)) + 1
                   THEN {[j \in 1..Len(Main(dg, i)) |-> lv.x[j] % Dims(dg, i)[j]]} ELSE {}))
SetToSeqBy(S) == LET RECURSIVE f(_)
                     f(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o f(T \ {x})
                 IN f(S)
Fill == /\ ph = "fill" /\ ph' = "eval"
        /\ LET dg == Diagram(in) IN
           ten' = [t \in TensorIds(dg) |->
                     LET i == CHOOSE i \in 1..Len(dg) : dg[i].t = t
                         es == SetToSeqBy(Entries(dg, t, Len(dg)))
                     IN [dims |-> Dims(dg, i), e |-> [m \in 1..Len(es) |-> [ix |-> es[m], z |-> lv.z[((i + 4*(m-1)) % 14) + 1]]]]]
        /\ UNCHANGED <<n, in, lv, out>>

(* ---- exact contraction: nodes one after the other, joined legs must carry equal values ---- *)
None == 99
RECURSIVE Terms(_, _, _, _, _)
Terms(dg, i, asg, phys, z) ==
    IF i > Len(dg) THEN << [p |-> phys, z |-> z] >>
    ELSE LET T == ten[dg[i].t]
             ok(e) == \A j \in 1..Len(dg[i].legs) :
                        LET x == Link(dg[i].pos, dg[i].legs[j]) IN asg[x] = None \/ asg[x] = e.ix[j]
             nxt(e) == LET up == [x \in DOMAIN asg |->
                                   IF \E j \in 1..Len(dg[i].legs) : Link(dg[i].pos, dg[i].legs[j]) = x
                                   THEN e.ix[CHOOSE j \in 1..Len(dg[i].legs) : Link(dg[i].pos, dg[i].legs[j]) = x] ELSE asg[x]]
                       IN Terms(dg, i + 1, up, IF dg[i].kind = "env" THEN phys ELSE Append(phys, e.ix[5]),
                                CMul(z, IF dg[i].kind = "bra" THEN CConj(e.z) ELSE e.z))
             RECURSIVE all(_)
             all(m) == IF m = 0 THEN <<>> ELSE all(m - 1) \o (IF ok(T.e[m]) THEN nxt(T.e[m]) ELSE <<>>)
         IN all(Len(T.e))
Eval == /\ ph = "eval" /\ ph' = "pick"
        /\ LET dg == Diagram(in) IN
           out' = Terms(dg, 1, [x \in LinksOf(dg) |-> None], <<>>, C1)
        /\ UNCHANGED <<n, in, lv, ten>>
Next == Pick \/ Links \/ Fill \/ Eval

WellFormed == ph = "links" => Closed(Diagram(in))
(* an unbroken case has a contribution *)
Positive == (ph = "pick" /\ n > 0 /\ in.brk # 2) => Len(out) > 0
Export == (ph = "pick" /\ n > 0) =>
    Serialize(ToJson([c |-> in, t |-> [i \in 1..Cardinality(DOMAIN ten) |->
                LET t == SetToSeqBy(DOMAIN ten)[i] IN [id |-> t, d |-> ten[t].dims, e |-> ten[t].e]], v |-> out]) \o "\n", "out.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
