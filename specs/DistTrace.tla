------------------------------ MODULE DistTrace ------------------------------
(* Recorded events of a real distributed run, one sequence per rank, judged   *)
(* against the requirements of Dist: matching collectives, and paired moves   *)
(* whose cuts are all computed by some rank.                                  *)
(*   coll: kind, src, n (elements), dt      move: ax, a, b ... end            *)
(*   cut: d, x, y (projectors computed)     sweep: x (number of sweeps) ... end_sweep      bond: s, d     *)
EXTENDS Lattice, TLC, Json, IOUtils
CONSTANTS NX, NY, WS
VARIABLES i
Tr == JsonDeserialize("trace.json")
(* evaluated once: LAMBDA-free definitions TLC caches as constants *)
Colls == [r \in 1..WS |-> SelectSeq(Tr[r], LAMBDA e : e.e = "coll")]
Structs == [r \in 1..WS |-> SelectSeq(Tr[r], LAMBDA e : e.e # "coll")]
MovesOnly == [r \in 1..WS |-> SelectSeq(Tr[r], LAMBDA e : e.e = "move")]
N == Len(Colls[1])
M == Len(Structs[1])

Init == i = 0
Next == i < (IF N > M THEN N ELSE M) /\ i' = i + 1

D == INSTANCE Dist WITH Prog <- <<>>, Len1 <- 0, NCases <- 0, pc <- 0, inbox <- 0, log <- 0, n <- 0, k <- 0, ph <- "", hist <- <<>>

SameNumber == i = 0 => \A r \in 1..WS : Len(Colls[r]) = N
Matching == (i > 0 /\ i <= N) => \A r \in 1..WS :
    i <= Len(Colls[r]) => /\ Colls[r][i].kind = Colls[1][i].kind
                          /\ Colls[r][i].src = Colls[1][i].src
                          /\ Colls[r][i].n = Colls[1][i].n
                          /\ Colls[r][i].dt = Colls[1][i].dt
SameMoves == i = 0 => \A r \in 1..WS : MovesOnly[r] = MovesOnly[1]

(* cuts computed by rank r between the j-th move event and its end *)
RECURSIVE Upto(_, _)
Upto(sq, j) == IF j > Len(sq) \/ sq[j].e # "cut" THEN {} ELSE {<<sq[j].d, sq[j].x, sq[j].y>>} \cup Upto(sq, j + 1)
(* position of the m-th move of rank r *)
RECURSIVE Find(_, _, _)
Find(sq, m, j) == IF j > Len(sq) THEN 0 ELSE IF sq[j].e = "move" THEN (IF m = 1 THEN j ELSE Find(sq, m - 1, j + 1)) ELSE Find(sq, m, j + 1)
Needed(m) == IF m.ax = 0 THEN {<<0, m.a, y>> : y \in 0..NY-1} \cup {<<2, m.b, y>> : y \in 0..NY-1}
             ELSE {<<1, x, m.a>> : x \in 0..NX-1} \cup {<<3, x, m.b>> : x \in 0..NX-1}
Covered == (i > 0 /\ i <= Len(MovesOnly[1])) =>
    Needed(MovesOnly[1][i]) \subseteq UNION {LET p == Find(Structs[r], i, 1) IN IF p = 0 THEN {} ELSE Upto(Structs[r], p + 1) : r \in 1..WS}

(* the moves of a bond update and of a sweep are those of the specification *)
RECURSIVE Until(_, _, _)
Until(sq, j, stop) == IF j > Len(sq) \/ sq[j].e = stop THEN <<>> ELSE (IF sq[j].e = "move" THEN <<sq[j]>> ELSE <<>>) \o Until(sq, j + 1, stop)
Same(a, b) == a.ax = b.ax /\ a.a = b.a /\ a.b = b.b
Count(sq, m) == Cardinality({j \in 1..Len(sq) : Same(sq[j], m)})
BondMoves == (i > 0 /\ i <= M /\ Structs[1][i].e = "bond") =>
    LET got == Until(Structs[1], i + 1, "end_bond")
        want == D!BondMove(Structs[1][i].s, Structs[1][i].d) IN
    Len(got) = 1 /\ Same(got[1], want[1])
SweepMoves == (i > 0 /\ i <= M /\ Structs[1][i].e = "sweep") =>
    LET got == Until(Structs[1], i + 1, "end_sweep") IN
    \A q \in 0..1 : /\ \A l \in 0..NX-1 : Cardinality({j \in 1..Len(got) : got[j].ax = 0 /\ (IF q = 0 THEN got[j].a ELSE got[j].b) = l}) = Structs[1][i].x
                    /\ \A l \in 0..NY-1 : Cardinality({j \in 1..Len(got) : got[j].ax = 1 /\ (IF q = 0 THEN got[j].a ELSE got[j].b) = l}) = Structs[1][i].x
=============================================================================
