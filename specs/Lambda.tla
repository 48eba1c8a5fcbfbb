------------------------------- MODULE Lambda -------------------------------
(* Bond weights of the simple update.                                        *)
(*                                                                           *)
(* Every bond of the unit cell carries weights; ver[b] tells which update    *)
(* made them (0: all ones).  A site sees, on its leg in direction d, the     *)
(* weights of the bond joining it to its neighbour in direction d.  Updating *)
(* bond b multiplies into both end tensors the weights seen on all their     *)
(* legs except the one along b, applies the gate, truncates, divides the     *)
(* same weights out again, and replaces the weights of b only.               *)
EXTENDS Lattice, TLC, Json, IOUtils
CONSTANTS NX, NY, Bonds, Gates, Len1, NCases     \* Bonds: <<site, site, direction>> in list order, sites numbered from 1
VARIABLES n, k, ver, act, hist
vars == <<n, k, ver, act, hist>>

NB == Len(Bonds)
SiteXY(i) == <<(i - 1) \div NY, (i - 1) % NY>>
Num(s) == s[1] * NY + s[2] + 1
NSites == NX * NY
(* the bond on leg d of site s, found geometrically *)
BondAt(s, d) == CHOOSE b \in 1..NB :
    \/ (Bonds[b][1] = s /\ Bonds[b][3] = d)
    \/ (Bonds[b][2] = s /\ Opp(Bonds[b][3]) = d)
(* weights multiplied into the end tensors of bond b: direction -> bond (0: none) *)
Around(s, x) == [d \in 1..4 |-> IF d - 1 = x THEN 0 ELSE BondAt(s, d - 1)]

Init == n = 0 /\ k = 0 /\ ver = [b \in 1..NB |-> 0] /\ act = [b |-> 0, g |-> "none"] /\ hist = <<>>
Start == /\ k = Len1 \/ n = 0
         /\ n < NCases /\ n' = n + 1 /\ k' = 0 /\ ver' = [b \in 1..NB |-> 0] /\ hist' = <<>>
         /\ act' = [b |-> RandomElement(1..NB), g |-> RandomElement(Gates)]
Update == /\ n > 0 /\ k < Len1 /\ k' = k + 1 /\ ver' = [ver EXCEPT ![act.b] = k + 1]
          /\ hist' = Append(hist, [b |-> act.b, g |-> act.g,
                                   l1 |-> Around(Bonds[act.b][1], Bonds[act.b][3]), l2 |-> Around(Bonds[act.b][2], Opp(Bonds[act.b][3])),
                                   ver |-> [ver EXCEPT ![act.b] = k + 1],
                                   see |-> [s \in 1..NSites |-> [d \in 1..4 |-> [ver EXCEPT ![act.b] = k + 1][BondAt(s, d - 1)]]]])
          /\ act' = [b |-> RandomElement(1..NB), g |-> RandomElement(Gates)]
          /\ UNCHANGED n
Next == Start \/ Update

(* every leg of every site lies on exactly one bond *)
OneBondPerLeg == \A s \in 1..NSites : \A d \in 0..3 :
    Cardinality({b \in 1..NB : (Bonds[b][1] = s /\ Bonds[b][3] = d) \/ (Bonds[b][2] = s /\ Opp(Bonds[b][3]) = d)}) = 1
(* both ends of a bond see the same weights on the joining legs *)
SameWeights == \A s \in 1..NSites : \A d \in 0..3 :
    LET t == Num(Nb(SiteXY(s), d, NX, NY)) IN BondAt(s, d) = BondAt(t, Opp(d))
(* an update never multiplies in its own bond's weights, and multiplies in six others *)
NotOwn == \A i \in 1..Len(hist) : \A d \in 1..4 : hist[i].l1[d] # hist[i].b /\ hist[i].l2[d] # hist[i].b
(* an update renews its own bond's weights and no others *)
OnlyOwn == \A i \in 2..Len(hist) : \A b \in 1..NB : hist[i].ver[b] # hist[i-1].ver[b] <=> b = hist[i].b
Export == (n > 0 /\ k = Len1) =>
    Serialize(ToJson([h |-> hist]) \o "\n", "out.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
