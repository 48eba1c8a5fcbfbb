-------------------------------- MODULE CTM --------------------------------
(* Boundary renormalization by directional moves.                            *)
(*                                                                           *)
(* Every site holds four edges E[j] (on side j+1) and four corners C[j]      *)
(* (between sides j and j+1).  Modelled of each tensor: the dimensions of    *)
(* its two boundary legs, the sites it has absorbed (cells: displacement     *)
(* from the site and whose site tensor sits there), and whether an operation *)
(* renewed it.  Boundary legs are listed as in the library: E[j] on side d   *)
(* has legs towards d-1 and d+1, C[j] has legs towards -(j+1) and -(j).      *)
(*                                                                           *)
(* Move(k, line): for each site s1 of the line (a column for k = 0, 2, a row *)
(* for k = 1, 3) the boundary on side k of its neighbour s2 opposite to k is *)
(* made from s1: edge E[k+3] absorbs the site tensor of s1, the corners      *)
(* C[k+3] and C[k] absorb the edges E[k+2] and E[k] of s1.  The legs cut     *)
(* between s1 and its neighbours along the line are projected.               *)
EXTENDS Lattice, TLC, Json, IOUtils
CONSTANTS NX, NY, D2, Chis, Full, Lossless, Ops, Len1, NCases
VARIABLES n, k, ph, st, chi, op, todo, hist
vars == <<n, k, ph, st, chi, op, todo, hist>>

S == Sites(NX, NY)
SeqS == SiteSeq(NX, NY)
NbS(s, d) == Nb(s, d % 4, NX, NY)
Min(T) == CHOOSE x \in T : \A y \in T : x <= y
J == 0..3
(* functions 0..3 -> value are kept as sequences, entry j+1 *)
At4(f, j) == f[(j % 4) + 1]
Set4(f, j, v) == [f EXCEPT ![(j % 4) + 1] = v]

(* absorbed sites are followed only in lossless histories (truncation makes them meaningless) *)
Track(cs) == IF Lossless THEN cs ELSE {}
Edge0(s, j) == [l |-> <<D2, D2>>, cells |-> Track({<<Dx((j+1) % 4), Dy((j+1) % 4), s>>})]
Corner0(s, j) == [l |-> <<D2, D2>>, cells |-> Track({<<Dx(j) + Dx((j+1) % 4), Dy(j) + Dy((j+1) % 4), s>>})]
Start == [s \in S |-> [E |-> [i \in 1..4 |-> Edge0(s, i - 1)], C |-> [i \in 1..4 |-> Corner0(s, i - 1)]]]

E(t, s, j) == At4(t[s].E, j)
C(t, s, j) == At4(t[s].C, j)
Line(d, i) == {s \in S : s[IF d \in {0, 2} THEN 1 ELSE 2] = i}

(* ---- the cut between s1 and its neighbour s4 on side d+3, seen from a move in direction d ---- *)
CutFull(t, d, s1) == E(t, s1, d+3).l[1] * D2
CutRank(t, d, s1) == LET s4 == NbS(s1, d+3)
                         s2 == NbS(s1, d+2)
                         r == {CutFull(t, d, s1), E(t, s1, d).l[2] * D2, E(t, s4, d+2).l[1] * D2}
                     IN Min(IF Full THEN r \cup {E(t, s2, d+1).l[2] * D2} ELSE r)
CutDim(t, d, s1, x) == Min({x, CutRank(t, d, s1)})
Keeps(t, d, i, x) == \A s \in Line(d, i) : CutDim(t, d, s, x) = CutFull(t, d, s)

Shift(cs, d) == {<<c[1] + Dx(d), c[2] + Dy(d), c[3]>> : c \in cs}
(* the new boundary on side d of s2, made from its neighbour s1 = NbS(s2, d) *)
NewE(t, d, s1, x) == [l |-> <<CutDim(t, d, s1, x), CutDim(t, d, NbS(s1, d+1), x)>>,
                      cells |-> Shift(Track(E(t, s1, d+3).cells \cup {<<0, 0, s1>>}), d)]
NewC1(t, d, s1, x) == [l |-> <<E(t, s1, d+2).l[1], CutDim(t, d, s1, x)>>,
                       cells |-> Shift(C(t, s1, d+3).cells \cup E(t, s1, d+2).cells, d)]
NewC2(t, d, s1, x) == [l |-> <<CutDim(t, d, NbS(s1, d+1), x), E(t, s1, d).l[2]>>,
                       cells |-> Shift(C(t, s1, d).cells \cup E(t, s1, d).cells, d)]
Move(t, d, i, x) == [s2 \in S |->
    LET s1 == NbS(s2, d) IN
    IF s1 \in Line(d, i)
    THEN [E |-> Set4(t[s2].E, d+3, NewE(t, d, s1, x)),
          C |-> Set4(Set4(t[s2].C, d+3, NewC1(t, d, s1, x)), d, NewC2(t, d, s1, x))]
    ELSE t[s2]]
Renewed(d, i) == UNION {{[s |-> NbS(s1, d+2), t |-> "E", j |-> (d+3) % 4], [s |-> NbS(s1, d+2), t |-> "C", j |-> (d+3) % 4],
                         [s |-> NbS(s1, d+2), t |-> "C", j |-> d]} : s1 \in Line(d, i)}

(* what a move may depend on: the boundary behind the line and along it, and the site tensors of the line; with full-system
   projectors also the other half of the cut system, on the line ahead *)
Uses(d, i) == LET nxt == {NbS(s, d+2) : s \in Line(d, i)} IN
    {[s |-> s, t |-> "A", j |-> 0] : s \in Line(d, i)}
    \cup {[s |-> s, t |-> "C", j |-> (d + x) % 4] : s \in Line(d, i), x \in {0, 3}}
    \cup {[s |-> s, t |-> "E", j |-> (d + x) % 4] : s \in Line(d, i), x \in {0, 2, 3}}
    \cup (IF Full THEN {[s |-> s, t |-> "A", j |-> 0] : s \in nxt} \cup {[s |-> s, t |-> "C", j |-> (d + x) % 4] : s \in nxt, x \in {1, 2}}
                       \cup {[s |-> s, t |-> "E", j |-> (d + x) % 4] : s \in nxt, x \in {0, 1, 2}} ELSE {})

(* ---- operations as sequences of moves <<direction, line>> ---- *)
RECURSIVE Cat(_, _, _)
Cat(f(_), i, m) == IF i > m THEN <<>> ELSE f(i) \o Cat(f, i + 1, m)
SweepX(i) == << <<0, i>>, <<2, (NX - i + 1) % NX>> >>
SweepY(i) == << <<1, (NY - i + 1) % NY>>, <<3, i>> >>
SweepMoves == Cat(SweepX, 0, NX - 1) \o Cat(SweepY, 0, NY - 1)
(* a bond update absorbs both updated sites, each moving away from the other one's side *)
AbsorbMoves(s1, d) == LET s2 == Nb(s1, d, NX, NY) IN
    CASE d = 2 -> << <<0, s1[1]>>, <<2, s2[1]>> >>
      [] d = 0 -> << <<2, s1[1]>>, <<0, s2[1]>> >>
      [] d = 1 -> << <<3, s1[2]>>, <<1, s2[2]>> >>
      [] d = 3 -> << <<1, s1[2]>>, <<3, s2[2]>> >>
MovesOf(o) == CASE o.op = "move" -> << <<o.d, o.i>> >>
                [] o.op = "sweep" -> IF o.x = 2 THEN SweepMoves \o SweepMoves ELSE SweepMoves
                [] o.op = "bond" -> AbsorbMoves(o.s, o.d)
                [] OTHER -> <<>>
RECURSIVE Ren(_)
Ren(ms) == IF ms = <<>> THEN {} ELSE Renewed(Head(ms)[1], Head(ms)[2]) \cup Ren(Tail(ms))

MoveOps == {[op |-> "move", d |-> d, i |-> i, s |-> <<0, 0>>, x |-> 0] : d \in J, i \in 0..(IF NX > NY THEN NX ELSE NY)-1}
Valid(o) == o.op # "move" \/ o.i < (IF o.d \in {0, 2} THEN NX ELSE NY)
AllOps == {o \in MoveOps : Valid(o)}
          \cup (IF "sweep" \in Ops THEN {[op |-> "sweep", d |-> 0, i |-> 0, s |-> <<0, 0>>, x |-> x] : x \in 1..2} ELSE {})
          \cup (IF "bond" \in Ops THEN {[op |-> "bond", d |-> d, i |-> 0, s |-> s, x |-> 0] : d \in J, s \in S} ELSE {})
          \cup (IF "chi" \in Ops THEN {[op |-> "chi", d |-> 0, i |-> 0, s |-> <<0, 0>>, x |-> x] : x \in Chis} ELSE {})
Enabled1(t, x) == IF Lossless THEN {o \in AllOps : o.op = "move" /\ Keeps(t, o.d, o.i, x)} ELSE {o \in AllOps : o.op \in Ops}
None == [op |-> "none", d |-> 0, i |-> 0, s |-> <<0, 0>>, x |-> 0]
Kinds == {o.op : o \in Enabled1(st, chi)}

SeqOf(T) == LET RECURSIVE f(_)
                f(U) == IF U = {} THEN <<>> ELSE LET y == CHOOSE y \in U : TRUE IN <<y>> \o f(U \ {y})
            IN f(T)
Dims(t) == [i \in 1..Cardinality(S) |-> [E |-> [j \in 1..4 |-> t[SeqS[i]].E[j].l], C |-> [j \in 1..4 |-> t[SeqS[i]].C[j].l]]]

Init == n = 0 /\ k = 0 /\ ph = "new" /\ st = Start /\ chi = 1 /\ op = None /\ todo = <<>> /\ hist = <<>>
New == /\ ph = "new" /\ n < NCases /\ n' = n + 1 /\ k' = 0 /\ ph' = "kind" /\ st' = Start /\ chi' = RandomElement(Chis) /\ hist' = <<>>
       /\ UNCHANGED <<op, todo>>
Kind == /\ ph = "kind" /\ k < Len1 /\ Enabled1(st, chi) # {}
        /\ ph' = "choose" /\ op' = [op |-> RandomElement(Kinds), d |-> 0, i |-> 0, s |-> <<0, 0>>, x |-> 0]
        /\ UNCHANGED <<n, k, st, chi, todo, hist>>
Choose1 == /\ ph = "choose" /\ ph' = "begin" /\ op' = RandomElement({o \in Enabled1(st, chi) : o.op = op.op})
           /\ UNCHANGED <<n, k, st, chi, todo, hist>>
Begin == /\ ph = "begin" /\ ph' = "do" /\ todo' = MovesOf(op) /\ chi' = IF op.op = "chi" THEN op.x ELSE chi
         /\ UNCHANGED <<n, k, st, op, hist>>
Do == /\ ph = "do" /\ todo # <<>> /\ st' = Move(st, Head(todo)[1], Head(todo)[2], chi) /\ todo' = Tail(todo)
      /\ UNCHANGED <<n, k, ph, chi, op, hist>>
Done == /\ ph = "do" /\ todo = <<>> /\ ph' = "kind" /\ k' = k + 1
        /\ LET ms == MovesOf(op) IN
           hist' = Append(hist, [op |-> op, chi |-> chi, moves |-> ms, ren |-> SeqOf(Ren(ms)), uses |-> IF op.op = "move" THEN SeqOf(Uses(op.d, op.i)) ELSE <<>>, dims |-> Dims(st),
                                 cuts |-> IF "cut" \in Ops THEN [i \in 1..Len(SeqS) |-> [j \in 1..4 |-> [full |-> CutFull(st, j - 1, SeqS[i]), dim |-> CutDim(st, j - 1, SeqS[i], chi),
                                             s2 |-> NbS(SeqS[i], j + 1), s3 |-> NbS(NbS(SeqS[i], j + 1), j + 2), s4 |-> NbS(SeqS[i], j + 2)]]] ELSE <<>>])
        /\ UNCHANGED <<n, st, chi, op, todo>>
Finish == ph = "kind" /\ (k = Len1 \/ Enabled1(st, chi) = {}) /\ ph' = "out" /\ UNCHANGED <<n, k, st, chi, op, todo, hist>>
Back == ph = "out" /\ ph' = "new" /\ UNCHANGED <<n, k, st, chi, op, todo, hist>>
Next == New \/ Kind \/ Choose1 \/ Begin \/ Do \/ Done \/ Finish \/ Back

(* ---------------------------------------------------------------- what has to hold *)
(* legs contracted with each other have equal dimension *)
Joined(t) == \A s \in S : \A j \in J :
    /\ E(t, s, j).l[1] = C(t, s, j).l[2] /\ E(t, s, j).l[2] = C(t, s, j+1).l[1]    \* edge j on side j+1 between corners j and j+1
    /\ E(t, s, j).l[2] = E(t, NbS(s, j+2), j).l[1]
WellJoined == Joined(st)
(* every renewed leg respects the boundary dimension of its time; the check is on the last operation *)
WithinChi == (ph = "kind" /\ k > 0 /\ hist[k].op.op # "chi") => \A i \in 1..Len(hist[k].ren) :
    LET r == hist[k].ren[i] IN
    IF r.t = "E" THEN E(st, r.s, r.j).l[1] <= chi /\ E(st, r.s, r.j).l[2] <= chi ELSE TRUE
(* a sweep renews everything; a bond update renews the boundary behind each updated site *)
SweepRenewsAll == Ren(SweepMoves) = {[s |-> s, t |-> x, j |-> j] : s \in S, x \in {"E", "C"}, j \in J}
BondRenewsEnds == \A s \in S, d \in J : LET s2 == Nb(s, d, NX, NY) IN
    /\ [s |-> s2, t |-> "E", j |-> (Opp(d) + 3) % 4] \in Ren(AbsorbMoves(s, d))
    /\ [s |-> s, t |-> "E", j |-> (d + 3) % 4] \in Ren(AbsorbMoves(s, d))
(* depth of the boundary on side d of site s, and the absorbed cluster *)
Depth(t, s, d) == Cardinality(E(t, s, d+3).cells)
Cluster(t, s, x) == UNION {E(t, s, j).cells : j \in {j \in J : (j+1) % 4 # x}}
                    \cup UNION {C(t, s, j).cells : j \in {j \in J : j # x /\ (j+1) % 4 # x}} \cup {<<0, 0, s>>}
(* every absorbed site sits at its place of the lattice, the outermost layer being the starting boundary of the site before it *)
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Proper(t) == \A s \in S :
    LET a == Depth(t, s, 0)
        b == Depth(t, s, 1)
        c == Depth(t, s, 2)
        d == Depth(t, s, 3)
        cl == Cluster(t, s, 9) IN
    /\ {<<x[1], x[2]>> : x \in cl} = (-a..c) \X (-d..b)
    /\ Cardinality(cl) = (a + c + 1) * (b + d + 1)
    /\ \A x \in cl : x[3] = At(s, Clamp(x[1], 1 - a, c - 1), Clamp(x[2], 1 - d, b - 1), NX, NY)
ProperClusters == Lossless => Proper(st)
BondCluster(t, s, d) == LET s2 == Nb(s, d, NX, NY) IN Cluster(t, s, d) \cup Shift(Cluster(t, s2, Opp(d)), d)
BondRect == Lossless => \A s \in S, d \in J : LET cl == BondCluster(st, s, d) IN
    Cardinality(cl) = Cardinality({<<x[1], x[2]>> : x \in cl})

Export == ph = "out" =>
    Serialize(ToJson([h |-> hist, chi0 |-> IF hist = <<>> THEN chi ELSE hist[1].chi, cl |-> IF Lossless THEN [i \in 1..Len(SeqS) |-> SeqOf(Cluster(st, SeqS[i], 9))] ELSE <<>>,
                      bc |-> IF Lossless THEN [i \in 1..Len(SeqS) |-> [j \in 1..4 |-> SeqOf(BondCluster(st, SeqS[i], j - 1))]] ELSE <<>>])
              \o "\n", "out.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
