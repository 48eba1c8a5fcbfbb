------------------------------- MODULE Pauli -------------------------------
(* Operator expressions over the Pauli matrices, evaluated exactly.         *)
(*                                                                          *)
(* A history is a postfix program on a store of values: every operation     *)
(* makes a new value out of earlier ones (which stay usable, and must stay  *)
(* what they were).  A value is an operator on n two-level systems,         *)
(*     2^(-e) * m,   m a Gaussian-integer matrix,                           *)
(* together with par, the parity of the number of Y factors of its terms    *)
(* (0, 1, or 2 when terms of different parity have been added).             *)
(*                                                                          *)
(* With a complex dtype every value must come out exactly.  With a real     *)
(* dtype (Real) Y has no representation; it is stored as -iY = (0 -1; 1 0)  *)
(* and values of even parity must come out exactly, so programs keep the    *)
(* parity of their terms uniform and scalars real.                          *)
EXTENDS Mat, TLC, IOUtils, Json, FiniteSets
CONSTANTS Real, MaxQ, MaxOps
VARIABLES vals, prog
vars == <<vals, prog>>

V(n, m, e, par) == [n |-> n, m |-> m, e |-> e, par |-> par]
Base(c) == CASE c = "X" -> V(1, SX, 0, 0) [] c = "Y" -> V(1, SY, 0, 1)
             [] c = "Z" -> V(1, SZ, 0, 0) [] c = "I" -> V(1, SI, 0, 0)

Letters == <<"X", "Y", "Z", "I">>
Init == /\ vals = [i \in 1..4 |-> Base(Letters[i])] /\ prog = <<>>

Prod(a, b) == V(a.n + b.n, MKron(a.m, b.m), a.e + b.e,
                IF a.par = 2 \/ b.par = 2 THEN 2 ELSE (a.par + b.par) % 2)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Lift(a, e) == MScale(<<Pow2(e - a.e), 0>>, a.m)
Max(a, b) == IF a > b THEN a ELSE b
Sum(a, b, sg) == LET e == Max(a.e, b.e) IN
    V(a.n, MAdd(Lift(a, e), MScale(<<sg, 0>>, Lift(b, e))), e, IF a.par = b.par THEN a.par ELSE 2)
Neg(a) == V(a.n, MScale(<<-1, 0>>, a.m), a.e, a.par)
Scl(a, z) == V(a.n, MScale(z, a.m), a.e, a.par)
(* v / z = conj(z) v / |z|^2, for divisors whose |z|^2 is the power of two 2^k *)
Log2(n) == CHOOSE k \in 0..10 : Pow2(k) = n
Quot(a, z) == V(a.n, MScale(CConj(z), a.m), a.e + Log2(CAbs2(z)), a.par)

Scalars == IF Real THEN {<<2, 0>>, <<-1, 0>>, <<3, 0>>, <<0, 0>>} ELSE {<<2, 0>>, <<-1, 0>>, <<0, 1>>, <<1, -2>>, <<0, 0>>}
Divisors == {<<2, 0>>, <<-1, 0>>, <<-2, 0>>, <<4, 0>>, <<1, 0>>} \cup (IF Real THEN {} ELSE {<<0, 1>>, <<0, -2>>, <<1, 1>>, <<2, -2>>})
Idx == 1..Len(vals)
Fits(v) == /\ v.n <= MaxQ /\ v.e <= 10
           /\ \A i \in 1..Rows(v.m), j \in 1..Rows(v.m) : \A c \in {v.m[i][j][1], v.m[i][j][2]} : -8000 <= c /\ c <= 8000
Push(v, rec) == IF Fits(v) THEN vals' = Append(vals, v) /\ prog' = Append(prog, rec) ELSE UNCHANGED vars
Addable(i, j) == vals[i].n = vals[j].n /\ (Real => vals[i].par = vals[j].par)

Mul(i, j) == Push(Prod(vals[i], vals[j]), [op |-> "mul", a |-> i, b |-> j])
Add(i, j) == Addable(i, j) /\ Push(Sum(vals[i], vals[j], 1), [op |-> "add", a |-> i, b |-> j])
Sub(i, j) == Addable(i, j) /\ Push(Sum(vals[i], vals[j], -1), [op |-> "sub", a |-> i, b |-> j])
Minus(i) == Push(Neg(vals[i]), [op |-> "neg", a |-> i])
Scale(k, i, z) == Push(Scl(vals[i], z), [op |-> k, a |-> i, z |-> z])   \* rscale: v * z, lscale: z * v, iscale: v *= z
Div(i, z) == Push(Quot(vals[i], z), [op |-> "div", a |-> i, z |-> z])      \* v / z

Next == /\ Len(prog) < MaxOps
        /\ \/ \E i, j \in Idx : Mul(i, j) \/ Add(i, j) \/ Sub(i, j)
           \/ \E i \in Idx : Minus(i)
           \/ \E i \in Idx, z \in Divisors : Div(i, z)
           \/ \E i \in Idx, z \in Scalars, k \in {"rscale", "lscale", "iscale"} : Scale(k, i, z)

(* simulation: one random choice per step, favouring recent values *)
VARIABLE kind
Kinds == <<"mul", "mul", "mul", "mul", "add", "add", "sub", "neg", "rscale", "lscale", "iscale", "div", "div">>
Recent == {i \in Idx : i > Len(vals) - 4} \cup 1..4
Alike(i) == {j \in Idx : Addable(i, j)}
SimInit == Init /\ kind = ""
SimNext ==
    \/ /\ Len(prog) < MaxOps /\ kind = ""
       /\ \E n \in {RandomElement(1..Len(Kinds))} : kind' = Kinds[n]
       /\ UNCHANGED vars
    \/ /\ Len(prog) < MaxOps /\ kind # "" /\ kind' = ""
       /\ \E i \in {RandomElement(Recent)} : \E j \in {RandomElement(Recent)}, jj \in {RandomElement(Alike(i))}, z \in {RandomElement(Scalars)}, dv \in {RandomElement(Divisors)} :
             \/ kind = "mul" /\ Mul(i, j)
             \/ kind = "add" /\ Add(i, jj)
             \/ kind = "sub" /\ Sub(i, jj)
             \/ kind = "neg" /\ Minus(i)
             \/ kind \in {"rscale", "lscale", "iscale"} /\ Scale(kind, i, z)
             \/ kind = "div" /\ Div(i, dv)
    \/ Len(prog) = MaxOps /\ kind # "done" /\ kind' = "done" /\ UNCHANGED vars

(* every product of four letters in every grouping *)
Products == /\ Len(prog) < 3 /\ kind' = kind
            /\ \E i, j \in Idx : Mul(i, j)
Operands == [k \in 1..Len(prog) |-> {prog[k].a, prog[k].b}]
(* each intermediate product is used exactly once *)
IsTree == /\ vals[7].n = 4
          /\ \A v \in 5..6 : Cardinality({k \in 1..3 : v \in Operands[k]}) = 1
          /\ \A k \in 1..3 : prog[k].a = prog[k].b => prog[k].a <= 4
ExportTrees == (Len(prog) = 3 /\ IsTree) =>
    Serialize(ToJson([prog |-> prog, vals |-> vals]) \o "\n", "out.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

(* ---- what the algebra promises, for every reachable value ---- *)
Square == \A i \in Idx : Rows(vals[i].m) = Pow2(vals[i].n) /\ Cols(vals[i].m) = Pow2(vals[i].n)
(* even parity operators with real coefficients are real matrices: a real dtype can hold them *)
EvenIsReal == Real => \A i \in Idx : /\ vals[i].par \in {0, 1}
                                     /\ vals[i].par = 0 => MReal(vals[i].m)
                                     /\ vals[i].par = 1 => MReal(MScale(<<0, -1>>, vals[i].m))
(* values are never changed once made *)
Immutable == [][\A i \in Idx : vals'[i] = vals[i]]_vars

Export == kind = "done" =>
    Serialize(ToJson([prog |-> prog, vals |-> vals]) \o "\n", "out.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
