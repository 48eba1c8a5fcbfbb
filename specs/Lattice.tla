------------------------------ MODULE Lattice ------------------------------
(* The periodic square lattice of an iPEPS unit cell: sites, directions,    *)
(* bonds, and the tensor-leg geometry every other module builds on.         *)
(*                                                                          *)
(* Directions are numbered clockwise from the left:                         *)
(*    0 = left (-x)   1 = up (+y)   2 = right (+x)   3 = down (-y)          *)
EXTENDS Integers, Sequences, FiniteSets

Dirs == 0..3
Dx(k) == CASE k = 0 -> -1 [] k = 2 -> 1 [] OTHER -> 0
Dy(k) == CASE k = 1 -> 1 [] k = 3 -> -1 [] OTHER -> 0
Opp(k) == (k + 2) % 4

Sites(nx, ny) == {<<x, y>> : x \in 0..nx-1, y \in 0..ny-1}

(* the neighbour of s in direction k *)
Nb(s, k, nx, ny) == << (s[1] + Dx(k) + nx) % nx, (s[2] + Dy(k) + ny) % ny >>
(* the site at displacement (dx, dy) from s *)
At(s, dx, dy, nx, ny) == << (s[1] + dx + 8*nx) % nx, (s[2] + dy + 8*ny) % ny >>

Bond(s, k, nx, ny) == [s1 |-> s, s2 |-> Nb(s, k, nx, ny), k |-> k]

(* every site owns the bond to its right and the bond above it *)
BondSet(nx, ny) == {Bond(s, k, nx, ny) : s \in Sites(nx, ny), k \in {1, 2}}

(* the bond and the leg (site, direction) pairs it joins *)
Legs(b) == {<<b.s1, b.k>>, <<b.s2, Opp(b.k)>>}

(* the order in which the library lists bonds: horizontal bonds column by    *)
(* column, then vertical bonds row by row                                    *)
BondSeq(nx, ny) ==
    [i \in 1..2*nx*ny |->
        IF i <= nx*ny
        THEN Bond(<<(i-1) \div ny, (i-1) % ny>>, 2, nx, ny)
        ELSE Bond(<<(i-nx*ny-1) % nx, (i-nx*ny-1) \div nx>>, 1, nx, ny)]

SiteSeq(nx, ny) == [i \in 1..nx*ny |-> <<(i-1) \div ny, (i-1) % ny>>]

Rev(sq) == [i \in 1..Len(sq) |-> sq[Len(sq) + 1 - i]]

(* ---- what makes it the square lattice ---- *)
IsSquareLattice(bonds, nx, ny) ==
    /\ \A b \in bonds : /\ b.s1 \in Sites(nx, ny) /\ b.s2 \in Sites(nx, ny)
                        /\ b.k \in Dirs
                        /\ b.s2 = Nb(b.s1, b.k, nx, ny)
    /\ \A s \in Sites(nx, ny), k \in Dirs :
          Cardinality({b \in bonds : <<s, k>> \in Legs(b)}) = 1
    /\ Cardinality(bonds) = 2*nx*ny
    /\ \A s \in Sites(nx, ny) :
          /\ Cardinality({b \in bonds : b.s1 = s /\ b.k \in {0, 2}}) = 1
          /\ Cardinality({b \in bonds : b.s1 = s /\ b.k \in {1, 3}}) = 1
=============================================================================
