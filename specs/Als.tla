-------------------------------- MODULE Als --------------------------------
(* The alternating least-squares solver of the full update, exactly.         *)
(*                                                                           *)
(* Given a norm tensor n[y][x][Y][X] (positive) and a target t[y][x][p][q],  *)
(* the solver looks for a1[y][u][p], a2[x][u][q] minimising                  *)
(*      Cost = <a1 a2, a1 a2>_n - 2 Re <t, a1 a2>_n .                        *)
(* It replaces in turn a1 and a2 by the minimiser with the other one fixed,  *)
(* at most niter times, and stops after an iteration - from the third one    *)
(* on - that changed the cost by less than tol times the previous cost.      *)
(*                                                                           *)
(* Three families of exactly solvable cases:                                 *)
(*  "general": Gaussian integer tensors; the iterates are rational and grow  *)
(*     quickly, so the behaviour is computed modulo many primes (a residue   *)
(*     number system; primes = 3 mod 4, where i is a new element).           *)
(*  "diag": a diagonal norm and one bond value: one minimisation with the    *)
(*     regularisation eps of the two methods (stationary where the norm is   *)
(*     not positive),                                                        *)
(*  "offdiag": as "diag", with a norm that couples two values of the first   *)
(*     leg more strongly than it weighs either of them,                      *)
(*  "stop": a diagonal target and one bond value, where the iteration is a   *)
(*     power iteration and the stop rule is decided with big naturals; with  *)
(*     weights of both signs the cost also goes up on the way.               *)
EXTENDS Mat, TLC, IOUtils, Json, FiniteSets
CONSTANTS Family, Shape, Iters, Primes, NCases
VARIABLES n, ph, in, it, st, log
vars == <<n, ph, in, it, st, log>>
nD == Shape[1]
bD == Shape[2]
pD == Shape[3]
NP == Len(Primes)

(* ---- tensors modulo a prime ---- *)
FAdd(a, b, p) == <<(a[1] + b[1]) % p, (a[2] + b[2]) % p>>
FSub(a, b, p) == <<(a[1] - b[1]) % p, (a[2] - b[2]) % p>>
FMul(a, b, p) == <<(a[1]*b[1] - a[2]*b[2]) % p, (a[1]*b[2] + a[2]*b[1]) % p>>
FConj(a, p) == <<a[1], (0 - a[2]) % p>>
RECURSIVE Pow(_, _, _)
Pow(x, e, p) == IF e = 0 THEN 1 ELSE LET h == Pow((x * x) % p, e \div 2, p) IN IF e % 2 = 1 THEN (h * x) % p ELSE h
FInv(a, p) == LET d == Pow((a[1]*a[1] + a[2]*a[2]) % p, p - 2, p) IN <<(a[1] * d) % p, ((p - a[2]) * d) % p>>
RECURSIVE FSum(_, _, _)
FSum(f, k, p) == IF k = 0 THEN C0 ELSE FAdd(FSum(f, k - 1, p), f[k], p)

(* index helpers: (a, b) of an index 1..na*nb, b fastest *)
Hi(k, nb) == ((k - 1) \div nb) + 1
Lo(k, nb) == ((k - 1) % nb) + 1

(* n t, with the open indices of the bra *)
NG(nt, t, p) == [Y \in 1..nD |-> [X \in 1..nD |-> [a \in 1..pD |-> [b \in 1..pD |->
    FSum([k \in 1..nD*nD |-> FMul(nt[Hi(k, nD)][Lo(k, nD)][Y][X], t[Hi(k, nD)][Lo(k, nD)][a][b], p)], nD*nD, p)]]]]
(* right-hand side and matrix of the minimisation over a1 with a2 fixed *)
RHS(g, a2, p) == [r \in 1..nD*bD |-> [a \in 1..pD |->
    FSum([k \in 1..nD*pD |-> FMul(g[Hi(r, bD)][Hi(k, pD)][a][Lo(k, pD)], FConj(a2[Hi(k, pD)][Lo(r, bD)][Lo(k, pD)], p), p)], nD*pD, p)]]
LHS(nt, a2, p) == [r \in 1..nD*bD |-> [c \in 1..nD*bD |->
    FSum([k \in 1..nD*nD*pD |->
        LET q == Lo(k, pD)  x == Lo(Hi(k, pD), nD)  X == Hi(Hi(k, pD), nD) IN
        FMul(nt[Hi(c, bD)][x][Hi(r, bD)][X], FMul(a2[x][Lo(c, bD)][q], FConj(a2[X][Lo(r, bD)][q], p), p), p)], nD*nD*pD, p)]]

(* Gauss-Jordan; <<>> when singular modulo p *)
RECURSIVE Elim(_, _, _, _)
Elim(m, c, k, p) ==
    IF c > k THEN [r \in 1..k |-> SubSeq(m[r], k + 1, Len(m[r]))]
    ELSE LET P == {r \in c..k : m[r][c] # C0} IN
         IF P = {} THEN <<>>
         ELSE LET r0 == CHOOSE r \in P : TRUE
                  iv == FInv(m[r0][c], p)
                  top == TLCEval([j \in 1..Len(m[1]) |-> FMul(m[r0][j], iv, p)])
                  w == TLCEval([m EXCEPT ![r0] = m[c], ![c] = top]) IN
              Elim(TLCEval([r \in 1..k |-> IF r = c THEN top ELSE [j \in 1..Len(top) |-> FSub(w[r][j], FMul(w[r][c], top[j], p), p)]]), c + 1, k, p)
Half(nt, g, a2, p) ==
    LET l == TLCEval(LHS(nt, a2, p))
        s == TLCEval(RHS(g, a2, p))
        k == nD * bD
        x == Elim([r \in 1..k |-> l[r] \o s[r]], 1, k, p) IN
    IF x = <<>> THEN <<>> ELSE TLCEval([y \in 1..nD |-> [u \in 1..bD |-> x[(y - 1)*bD + u]]])
(* the same problem seen from the other site *)
SwapN(nt) == [y \in 1..nD |-> [x \in 1..nD |-> [Y \in 1..nD |-> [X \in 1..nD |-> nt[x][y][X][Y]]]]]
SwapT(t) == [y \in 1..nD |-> [x \in 1..nD |-> [a \in 1..pD |-> [b \in 1..pD |-> t[x][y][b][a]]]]]

Pair(a1, a2, p) == [y \in 1..nD |-> [x \in 1..nD |-> [a \in 1..pD |-> [b \in 1..pD |->
    FSum([u \in 1..bD |-> FMul(a1[y][u][a], a2[x][u][b], p)], bD, p)]]]]
(* <s, t>_n : t on the ket, s on the bra *)
Inner(g, s, p) == FSum([k \in 1..nD*nD*pD*pD |->
    LET b == Lo(k, pD)  a == Lo(Hi(k, pD), pD)  X == Lo(Hi(Hi(k, pD), pD), nD)  Y == Hi(Hi(Hi(k, pD), pD), nD) IN
    FMul(g[Y][X][a][b], FConj(s[Y][X][a][b], p), p)], nD*nD*pD*pD, p)
Cost(nt, g, a1, a2, p) ==
    LET w == TLCEval(Pair(a1, a2, p)) IN
    LET d2 == Inner(TLCEval(NG(nt, w, p)), w, p)
        d3 == Inner(g, w, p) IN (d2[1] - 2 * d3[1]) % p

Mod(a, p) == <<a[1] % p, a[2] % p>>
Mod3(t, p) == [i \in DOMAIN t |-> [j \in DOMAIN t[i] |-> [k \in DOMAIN t[i][j] |-> Mod(t[i][j][k], p)]]]
Mod4(t, p) == [i \in DOMAIN t |-> Mod3(t[i], p)]

(* ---- big naturals, base 10^4, least significant limb first ---- *)
Base == 10000
RECURSIVE BNorm(_, _)
BNorm(s, c) == IF s = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % Base>> \o BNorm(<<>>, c \div Base))
               ELSE LET v == s[1] + c  r == BNorm(Tail(s), v \div Base) IN
                    IF r = <<>> /\ v % Base = 0 THEN <<>> ELSE <<v % Base>> \o r
Limb(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
Max(a, b) == IF a > b THEN a ELSE b
BAdd(a, b) == BNorm([i \in 1..Max(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)], 0)
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE BNorm([k \in 1..Len(a) + Len(b) - 1 |-> ISum([i \in 1..k |-> Limb(a, i) * Limb(b, k + 1 - i)], k)], 0)
BNat(x) == BNorm(<<x>>, 0)
RECURSIVE BLess(_, _, _)
BLess(a, b, i) == IF i = 0 THEN FALSE ELSE IF Limb(a, i) # Limb(b, i) THEN Limb(a, i) < Limb(b, i) ELSE BLess(a, b, i - 1)
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLess(a, b, Len(a))
(* a - b for a >= b, and integers as sign and magnitude *)
RECURSIVE BDiff(_, _, _, _)
BDiff(a, b, i, br) == IF i > Len(a) THEN <<>>
                      ELSE LET v == a[i] - Limb(b, i) - br IN <<IF v < 0 THEN v + Base ELSE v>> \o BDiff(a, b, i + 1, IF v < 0 THEN 1 ELSE 0)
RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
ZSub(a, b) == IF Less(a, b) THEN [s |-> -1, m |-> Trim(BDiff(b, a, 1, 0))] ELSE [s |-> 1, m |-> Trim(BDiff(a, b, 1, 0))]
RECURSIVE BSum(_, _)
BSum(f, k) == IF k = 0 THEN <<>> ELSE BAdd(BSum(f, k - 1), f[k])

(* ---- cases ---- *)
K == nD * pD       \* the dimension of one site
RC(k) == IF bD = 2 /\ nD = 2 THEN <<RandomElement(-1..1), RandomElement(-1..1)>> ELSE <<RandomElement(-2..2), RandomElement(-2..2)>>
Unit == << <<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>> >>
Perm(d) == LET rank(i) == 1 + Cardinality({j \in DOMAIN d : d[j] < d[i] \/ (d[j] = d[i] /\ j < i)}) IN [i \in DOMAIN d |-> rank(i)]
Init == n = 0 /\ ph = "pick" /\ in = <<>> /\ it = 0 /\ st = <<>> /\ log = <<>>
Pick == /\ ph = "pick" /\ n < NCases /\ n' = n + 1 /\ it' = 0 /\ st' = <<>> /\ log' = <<>>
        /\ ph' = "build"
        /\ in' = IF Family = "general"
                 THEN [g |-> [k \in 1..nD*nD |-> [j \in 1..nD*nD |-> RC(j)]],
                       t |-> [y \in 1..nD |-> [x \in 1..nD |-> [a \in 1..pD |-> [b \in 1..pD |-> RC(b)]]]],
                       a1 |-> [y \in 1..nD |-> [u \in 1..bD |-> [a \in 1..pD |-> RC(a)]]],
                       a2 |-> [y \in 1..nD |-> [u \in 1..bD |-> [a \in 1..pD |-> RC(a)]]],
                       h |-> [y \in 1..nD |-> [u \in 1..bD |-> [a \in 1..pD |-> RC(a)]]]]
                 ELSE IF Family = "diag"
                 THEN [d |-> [y \in 1..nD |-> [x \in 1..nD |-> RandomElement({1, 2, 3, 20, 50, 1, 2, 3, -1, -4})]],
                       t |-> [y \in 1..nD |-> [x \in 1..nD |-> [a \in 1..pD |-> [b \in 1..pD |-> RC(b)]]]],
                       a2 |-> [x \in 1..nD |-> [a \in 1..pD |-> RC(a)]], eps |-> RandomElement(1..15), method |-> RandomElement({"cholesky", "pinv"})]
                 ELSE IF Family = "offdiag"
                 THEN [p |-> RandomElement({-2, -1, 1, 2, 3, 4}), r |-> RandomElement({-2, -1, 1, 2, 3}), k |-> RandomElement(1..5), ph |-> RandomElement(1..4),
                       d |-> [x \in 1..nD |-> RandomElement({1, 2, 3, -1})],
                       t |-> [y \in 1..nD |-> [x \in 1..nD |-> [a \in 1..pD |-> [b \in 1..pD |-> RC(b)]]]],
                       a2 |-> [x \in 1..nD |-> [a \in 1..pD |-> RC(a)]], eps |-> RandomElement(1..15), method |-> RandomElement({"cholesky", "pinv"})]
                 ELSE [e |-> [x \in 1..nD |-> RandomElement({1, 2, 3, -1, -2})], d |-> [y \in 1..nD |-> RandomElement({1, 2, 3, -1, -3})],
                       signed |-> RandomElement({TRUE, FALSE}),
                       m |-> [c \in 1..K |-> RandomElement(1..9)], s |-> [c \in 1..K |-> RandomElement(1..9)],
                       u |-> [c \in 1..K |-> RandomElement(1..4)], w |-> [c \in 1..K |-> RandomElement(1..4)],
                       pi |-> [c \in 1..K |-> RandomElement(1..10000)], rho |-> [c \in 1..K |-> RandomElement(1..10000)],
                       n0 |-> RandomElement(1..5), niter |-> RandomElement(1..9), tol |-> RandomElement({2, 10, 50, 200, 1000, 10000, 100000})]

(* general: n = G^T conj(G) + 1 *)
NormOf(g) == [y \in 1..nD |-> [x \in 1..nD |-> [Y \in 1..nD |-> [X \in 1..nD |->
    LET s == CSum([k \in 1..nD*nD |-> CMul(g[k][(y-1)*nD + x], CConj(g[k][(Y-1)*nD + X]))], nD*nD) IN
    IF y = Y /\ x = X THEN CAdd(s, C1) ELSE s]]]]
Build == /\ ph = "build" /\ ph' = "start"
         /\ in' = IF Family = "general" THEN [nt |-> NormOf(in.g), t |-> in.t, a1 |-> in.a1, a2 |-> in.a2, h |-> in.h]
                  ELSE IF Family = "stop" THEN [in EXCEPT !.pi = Perm(in.pi), !.rho = Perm(in.rho),
                                                          !.e = [x \in 1..nD |-> IF in.signed THEN @[x] ELSE 1],
                                                          !.d = [y \in 1..nD |-> IF in.signed THEN @[y] ELSE 1]]
                  (* the spectral cutoff is exact where both diagonal elements agree *)
                  ELSE IF Family = "offdiag" /\ in.method = "pinv" THEN [in EXCEPT !.r = in.p] ELSE in
         /\ UNCHANGED <<n, it, st, log>>

(* ---- family "general" ---- *)
GOf(i) == st[i].g
StartG == /\ ph = "start" /\ Family = "general" /\ ph' = "one"
          /\ st' = [i \in 1..NP |-> LET p == Primes[i]
                                        nt == Mod4(in.nt, p)
                                        g == TLCEval(NG(nt, Mod4(in.t, p), p))
                                        a1 == Mod3(in.a1, p)
                                        a2 == Mod3(in.a2, p) IN
                        [g |-> g, gs |-> SwapT(g), a1 |-> a1, a2 |-> a2, c |-> Cost(nt, g, a1, a2, p), ok |-> TRUE]]
          /\ UNCHANGED <<n, in, it, log>>
One == /\ ph = "one" /\ ph' = "two" /\ it' = it + 1
       /\ st' = [i \in 1..NP |-> LET p == Primes[i]
                                     x == Half(Mod4(in.nt, p), st[i].g, st[i].a2, p) IN
                     IF st[i].ok /\ x # <<>> THEN [st[i] EXCEPT !.a1 = x] ELSE [st[i] EXCEPT !.ok = FALSE]]
       /\ UNCHANGED <<n, in, log>>
Two == /\ ph = "two" /\ ph' = IF it = Iters THEN "done" ELSE "one"
       /\ st' = [i \in 1..NP |-> LET p == Primes[i]
                                     nt == Mod4(in.nt, p)
                                     x == Half(SwapN(nt), st[i].gs, st[i].a1, p) IN
                     IF st[i].ok /\ x # <<>> THEN [st[i] EXCEPT !.a2 = x, !.c = Cost(nt, st[i].g, st[i].a1, x, p)] ELSE [st[i] EXCEPT !.ok = FALSE]]
       /\ log' = Append(log, [i \in 1..NP |-> [a1 |-> st'[i].a1, a2 |-> st'[i].a2, c |-> st'[i].c, ok |-> st'[i].ok]])
       /\ UNCHANGED <<n, in, it>>

Few == 1..(IF NP > 2 THEN 2 ELSE NP)
(* the minimisation matrices are Hermitian *)
Hermitian == ph \in {"one", "two"} /\ Family = "general" => \A i \in Few :
    LET p == Primes[i]  l == LHS(Mod4(in.nt, p), st[i].a2, p) IN
    \A r, c \in 1..nD*bD : l[r][c] = FConj(l[c][r], p)
Plus(a, h, p) == [y \in 1..nD |-> [u \in 1..bD |-> [a0 \in 1..pD |-> FAdd(a[y][u][a0], h[y][u][a0], p)]]]
(* <a, L a> for the matrix of a minimisation *)
Quad(l, a, p) == FSum([k \in 1..(nD*bD)*(nD*bD)*pD |->
    LET q == Lo(k, pD)  c == Lo(Hi(k, pD), nD*bD)  r == Hi(Hi(k, pD), nD*bD) IN
    FMul(FConj(a[Hi(r, bD)][Lo(r, bD)][q], p), FMul(l[r][c], a[Hi(c, bD)][Lo(c, bD)][q], p), p)], (nD*bD)*(nD*bD)*pD, p)[1]
(* what a minimisation returns is a minimum: moving away by h costs the (positive) quadratic form of h, and nothing to first order *)
Minimum == Family = "general" /\ ph \in {"two", "one", "done"} /\ it > 0 => \A i \in Few :
    LET p == Primes[i]
        nt == Mod4(in.nt, p)
        h == Mod3(in.h, p)
        s == st[i] IN
    s.ok => IF ph = "two"
            THEN (Cost(nt, s.g, Plus(s.a1, h, p), s.a2, p) - Cost(nt, s.g, s.a1, s.a2, p)) % p = Quad(LHS(nt, s.a2, p), h, p)
            ELSE (Cost(nt, s.g, s.a1, Plus(s.a2, h, p), p) - s.c) % p = Quad(LHS(SwapN(nt), s.a1, p), h, p)
(* the cost is the distance to the target, up to the target's norm *)
Minus4(a, b, p) == [y \in 1..nD |-> [x \in 1..nD |-> [i \in 1..pD |-> [j \in 1..pD |-> FSub(a[y][x][i][j], b[y][x][i][j], p)]]]]
Distance == Family = "general" /\ ph = "one" => \A i \in Few :
    LET p == Primes[i]
        nt == Mod4(in.nt, p)
        t == Mod4(in.t, p)
        d == Minus4(Pair(st[i].a1, st[i].a2, p), t, p) IN
    st[i].ok => Inner(NG(nt, d, p), d, p) = <<(st[i].c + Inner(st[i].g, t, p)[1]) % p, 0>>

(* ---- family "diag": one minimisation with regularisation eps/16 ---- *)
DR(y) == ISum([k \in 1..K |-> in.d[y][Hi(k, pD)] * CAbs2(in.a2[Hi(k, pD)][Lo(k, pD)])], K)
DS(y, a) == CSum([k \in 1..K |-> LET x == Hi(k, pD)  b == Lo(k, pD) IN
                 CMul(<<in.d[y][x], 0>>, CMul(in.t[y][x][a][b], CConj(in.a2[x][b])))], K)
Abs(x) == IF x < 0 THEN -x ELSE x
TopR == LET S == {Abs(DR(y)) : y \in 1..nD} IN CHOOSE x \in S : \A z \in S : z <= x
(* numerators over a common denominator per y *)
Diag == /\ ph = "start" /\ Family = "diag" /\ ph' = "done"
        /\ st' = [y \in 1..nD |-> [den |-> IF in.method = "cholesky" THEN 16 * DR(y) + in.eps * TopR ELSE 16 * DR(y),
                                   num |-> [a \in 1..pD |-> IF in.method = "pinv" /\ 16 * Abs(DR(y)) <= in.eps * TopR THEN C0 ELSE CMul(<<16, 0>>, DS(y, a))],
                                   edge |-> 16 * Abs(DR(y)) = in.eps * TopR]]
        /\ UNCHANGED <<n, in, it, log>>

(* ---- family "offdiag": norm M[y][Y] d[x] (x = X) with M = [[p, q], [q*, r]], q = k i^ph, nD = 2 ---- *)
OQ == CMul(Unit[in.ph], <<in.k, 0>>)
OM == << << <<in.p, 0>>, OQ >>, << CConj(OQ), <<in.r, 0>> >> >>
OW == ISum([k \in 1..K |-> in.d[Hi(k, pD)] * CAbs2(in.a2[Hi(k, pD)][Lo(k, pD)])], K)
OF(y, a) == CSum([k \in 1..K |-> LET x == Hi(k, pD)  b == Lo(k, pD) IN
                 CMul(<<in.d[x], 0>>, CMul(in.t[y][x][a][b], CConj(in.a2[x][b])))], K)
OS(Y, a) == CAdd(CMul(OM[1][Y], OF(1, a)), CMul(OM[2][Y], OF(2, a)))
OTop == Abs(OW) * (LET S == {Abs(in.p), in.k, Abs(in.r)} IN CHOOSE x \in S : \A z \in S : z <= x)
(* the matrix of the minimisation, times 16, with the regularisation *)
OR(Y, y) == CAdd(<<16 * OW * OM[y][Y][1], 16 * OW * OM[y][Y][2]>>, IF y = Y /\ in.method = "cholesky" THEN <<in.eps * OTop, 0>> ELSE C0)
ODet == CSub(CMul(OR(1, 1), OR(2, 2)), CMul(OR(1, 2), OR(2, 1)))[1]
(* eigenvalues of M for p = r, with eigenvectors (1, +-phase) *)
OE(sg) == in.p + sg * in.k
OKeep(sg) == 16 * Abs(OE(sg)) > in.eps * (Abs(in.p) + in.k)
OProj(sg, a, Y) ==      \* twice the component of the right-hand side along that eigenvector of R = W M^T
    LET u == CMul(<<sg, 0>>, Unit[in.ph]) IN
    IF Y = 1 THEN CAdd(OS(1, a), CMul(CConj(u), OS(2, a))) ELSE CAdd(CMul(u, OS(1, a)), OS(2, a))
OffDiag == /\ ph = "start" /\ Family = "offdiag" /\ ph' = "done"
           /\ st' = IF in.method = "cholesky"
                    THEN [y \in 1..2 |-> [den |-> ODet, edge |-> ODet = 0,
                            num |-> [a \in 1..pD |-> LET z == 3 - y IN
                                CMul(<<16, 0>>, CSub(CMul(OR(z, z), OS(y, a)), CMul(OR(y, z), OS(z, a))))]]]
                    ELSE [y \in 1..2 |-> [den |-> 2 * OW * (IF OKeep(1) THEN OE(1) ELSE 1) * (IF OKeep(-1) THEN OE(-1) ELSE 1),
                            edge |-> OW = 0 \/ \E sg \in {1, -1} : 16 * Abs(OE(sg)) = in.eps * (Abs(in.p) + in.k),
                            num |-> [a \in 1..pD |-> CAdd(
                                IF OKeep(1) THEN CMul(<<IF OKeep(-1) THEN OE(-1) ELSE 1, 0>>, OProj(1, a, y)) ELSE C0,
                                IF OKeep(-1) THEN CMul(<<IF OKeep(1) THEN OE(1) ELSE 1, 0>>, OProj(-1, a, y)) ELSE C0)]]]
           /\ UNCHANGED <<n, in, it, log>>
(* without truncation or regularisation the matrix applied to the solution is the right-hand side *)
Solves == Family = "offdiag" /\ ph = "done" /\ ~ st[1].edge /\ (in.method = "pinv" => OKeep(1) /\ OKeep(-1)) => \A Y \in 1..2, a \in 1..pD :
    LET P == 32749      \* compared modulo a prime: the products are too large
        z(v) == Mod(v, P)
        l == FAdd(FMul(z(OR(Y, 1)), z(st[1].num[a]), P), FMul(z(OR(Y, 2)), z(st[2].num[a]), P), P) IN
    l = FMul(<<(16 * (st[1].den % P)) % P, 0>>, z(OS(Y, a)), P)

(* ---- family "stop" ---- *)
(* weights of the pair c: of its first and of its second end *)
WD(c) == in.d[Hi(in.pi[c], pD)]
WE(c) == in.e[Hi(in.rho[c], pD)]
(* vectors are sequences of magnitudes; the signs of v and w cancel in everything that is observed but are kept for the result *)
Weighed(v, sgn, wt(_)) == BSum([c \in 1..K |-> IF wt(c) * sgn > 0 THEN BMul(BNat(Abs(wt(c))), BMul(v[c], v[c])) ELSE <<>>], K)
Sq(v, wt(_)) == ZSub(Weighed(v, 1, wt), Weighed(v, -1, wt))
AbsSq(v, wt(_)) == BAdd(Weighed(v, 1, wt), Weighed(v, -1, wt))
Times(v, wt(_)) == [c \in 1..K |-> BMul(BNat(in.m[c] * Abs(wt(c))), v[c])]
Sg(x) == IF x < 0 THEN -1 ELSE 1
StartS == /\ ph = "start" /\ Family = "stop" /\ ph' = "iterate"
          /\ st' = [v |-> [c \in 1..K |-> BNat(in.s[c])], w |-> <<>>, n0 |-> Sq([c \in 1..K |-> BNat(in.s[c])], WE), sv |-> [c \in 1..K |-> 1], sw |-> <<>>,
                    N |-> [s |-> 1, m |-> <<>>], D |-> [s |-> 1, m |-> <<>>],
                    near |-> Sq([c \in 1..K |-> BNat(in.s[c])], WE).m = <<>>]
          /\ UNCHANGED <<n, in, it, log>>
(* first end: w = e m v / <v, v>_e, second end: v' = d m w / <w, w>_d; -cost = <v', v'>_e / <w, w>_d = N/D *)
Iterate == /\ ph = "iterate" /\ it' = it + 1
           /\ LET w == TLCEval(Times(st.v, WE))
                  v == TLCEval(Times(w, WD))
                  N == TLCEval(Sq(v, WE))
                  D == TLCEval(Sq(w, WD))
                  x == TLCEval(BMul(N.m, st.D.m))          \* this cost over the common denominator
                  y == TLCEval(BMul(st.N.m, D.m))          \* the previous one
                  same == N.s * D.s = st.N.s * st.D.s
                  dist == TLCEval(IF same THEN ZSub(x, y).m ELSE BAdd(x, y))
                  td == TLCEval(BMul(BNat(in.tol), dist))
                  stop == it >= 2 /\ Less(td, y)          \* |x - y| tol < |y|
                  edge == it >= 2 /\ td = y
                  dead == N.m = <<>> \/ D.m = <<>> IN
              /\ st' = [v |-> v, w |-> w, n0 |-> st.n0, sv |-> [c \in 1..K |-> st.sv[c] * Sg(WE(c)) * Sg(WD(c))], sw |-> [c \in 1..K |-> st.sv[c] * Sg(WE(c))],
                        N |-> N, D |-> D, near |-> st.near \/ edge \/ dead]
              /\ ph' = IF stop \/ dead \/ st.near \/ it + 1 = in.niter THEN "done" ELSE "iterate"
              /\ log' = Append(log, [N |-> N, D |-> D, NA |-> AbsSq(v, WE), DA |-> AbsSq(w, WD)])
           /\ UNCHANGED <<n, in>>
(* every iteration lowers the cost *)
Monotone == Family = "stop" /\ ph # "pick" /\ ~ in.signed => \A k \in 2..Len(log) : ~ Less(BMul(log[k].N.m, log[k-1].D.m), BMul(log[k-1].N.m, log[k].D.m))
AtLeastThree == Family = "stop" /\ ph = "done" /\ ~ st.near => it = in.niter \/ it >= 3

Done == /\ ph = "done" /\ ph' = "pick" /\ UNCHANGED <<n, in, it, st, log>>
Next == Pick \/ Build \/ StartG \/ One \/ Two \/ Diag \/ OffDiag \/ StartS \/ Iterate \/ Done
Result == IF Family = "general" THEN [in |-> [nt |-> in.nt, t |-> in.t, a1 |-> in.a1, a2 |-> in.a2], log |-> log]
          ELSE [in |-> in, it |-> it, st |-> st, log |-> log]
Export == ph = "done" =>
    Serialize(ToJson(Result) \o "\n", "out.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
