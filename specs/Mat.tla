-------------------------------- MODULE Mat --------------------------------
(* Small matrices of Gaussian integers: sequences of rows of pairs <<re, im>>. *)
EXTENDS Integers, Sequences

CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
CConj(a) == <<a[1], -a[2]>>
CAbs2(a) == a[1]*a[1] + a[2]*a[2]
C0 == <<0, 0>>
C1 == <<1, 0>>

RECURSIVE CSum(_, _)
CSum(f, n) == IF n = 0 THEN C0 ELSE CAdd(CSum(f, n - 1), f[n])
RECURSIVE ISum(_, _)
ISum(f, n) == IF n = 0 THEN 0 ELSE ISum(f, n - 1) + f[n]

Rows(m) == Len(m)
Cols(m) == Len(m[1])
MMake(r, c, f(_, _)) == [i \in 1..r |-> [j \in 1..c |-> f(i, j)]]
MMap(m, f(_)) == [i \in 1..Rows(m) |-> [j \in 1..Cols(m) |-> f(m[i][j])]]
MAdd(a, b) == [i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> CAdd(a[i][j], b[i][j])]]
MSub(a, b) == [i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> CSub(a[i][j], b[i][j])]]
MScale(z, a) == [i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> CMul(z, a[i][j])]]
MMul(a, b) == [i \in 1..Rows(a) |-> [j \in 1..Cols(b) |->
                 CSum([k \in 1..Cols(a) |-> CMul(a[i][k], b[k][j])], Cols(a))]]
MKron(a, b) == [i \in 1..Rows(a)*Rows(b) |-> [j \in 1..Cols(a)*Cols(b) |->
                 CMul(a[((i-1) \div Rows(b)) + 1][((j-1) \div Cols(b)) + 1],
                      b[((i-1) % Rows(b)) + 1][((j-1) % Cols(b)) + 1])]]
MDag(a) == [i \in 1..Cols(a) |-> [j \in 1..Rows(a) |-> CConj(a[j][i])]]
MZero(n) == [i \in 1..n |-> [j \in 1..n |-> C0]]
MId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN C1 ELSE C0]]
MTrace(a) == CSum([i \in 1..Rows(a) |-> a[i][i]], Rows(a))
MReal(a) == \A i \in 1..Rows(a), j \in 1..Cols(a) : a[i][j][2] = 0

(* the Pauli matrices *)
SX == << <<C0, C1>>, <<C1, C0>> >>
SY == << <<C0, <<0, -1>> >>, << <<0, 1>>, C0>> >>
SZ == << <<C1, C0>>, <<C0, <<-1, 0>> >> >>
SI == MId(2)
=============================================================================
