---------------------------- MODULE LatticeCheck ----------------------------
(* Judges the site and bond lists exported by the implementation: one record *)
(* per unit cell (and per way of obtaining the network), one state each.     *)
EXTENDS Lattice, TLC, Json
CONSTANT NX, NY        \* the library's own lattice for cells up to NX x NY
VARIABLE i
Recs == ndJsonDeserialize("cells.ndjson")
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1
SeqSet(q) == {q[j] : j \in 1..Len(q)}
DirName == <<"-x", "+y", "+x", "-y">>
Good(r) == LET bonds == {[s1 |-> b.s1, s2 |-> b.s2, k |-> b.k] : b \in SeqSet(r.bonds)} IN
    /\ Len(r.bonds) = Cardinality(bonds)
    /\ IsSquareLattice(bonds, r.nx, r.ny)
    /\ \A b \in SeqSet(r.bonds) : b.dir = DirName[b.k + 1] /\ b.plain = b.dir /\ b.back = DirName[Opp(b.k) + 1]
    /\ Len(r.sites) = r.nx * r.ny
    /\ SeqSet(r.sites) = Sites(r.nx, r.ny)
Ok == i > 0 => Good(Recs[i])
AllSeen == i = Len(Recs) => TRUE
(* the specification's own list is the square lattice, for every cell *)
SpecOk == i = 0 => \A nx \in 1..NX, ny \in 1..NY :
    /\ IsSquareLattice(BondSet(nx, ny), nx, ny)
    /\ SeqSet(BondSeq(nx, ny)) = BondSet(nx, ny)
    /\ \A s \in Sites(nx, ny), k \in Dirs : Nb(Nb(s, k, nx, ny), Opp(k), nx, ny) = s
=============================================================================
