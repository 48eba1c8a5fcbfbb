-------------------------------- MODULE Dist --------------------------------
(* A distributed run: WS ranks execute the same program and meet in          *)
(* collectives.  A paired move (axis, a, b) renews the boundary moved out of *)
(* line a in the direction 0 (axis 0) or 1 (axis 1) and out of line b in the *)
(* opposite direction; its cuts are computed by different ranks and sent to  *)
(* all.  A bond update is computed by rank 0 and sent to all.                *)
(*                                                                           *)
(* What a rank computes may differ between ranks in the last bit or at       *)
(* random, so values carry the rank that computed them: agreement must come  *)
(* from communication, not from luck.                                        *)
EXTENDS Lattice, TLC, Json, IOUtils
CONSTANTS NX, NY, WS, Prog, Len1, NCases
VARIABLES pc, inbox, log, n, k, ph, hist
vars == <<pc, inbox, log, n, k, ph, hist>>
net == <<pc, inbox, log>>
gen == <<n, k, ph, hist>>

Ranks == 0..WS-1
Half == WS \div 2
MinI(a, b) == IF a < b THEN a ELSE b
Cuts(ax) == IF ax = 0 THEN NY ELSE NX       \* cuts along one line
Rounds(ax) == (Cuts(ax) + Half - 1) \div Half

(* ---------------------------------------------------------------- the paired moves of an operation *)
RECURSIVE Cat(_, _, _)
Cat(f(_), i, m) == IF i > m THEN <<>> ELSE f(i) \o Cat(f, i + 1, m)
PM(ax, a, b) == << [ax |-> ax, a |-> a, b |-> b] >>
SweepX(i) == PM(0, i, (NX - i + 1) % NX)
SweepY(i) == PM(1, (NY - i + 1) % NY, i)
SweepMoves == Cat(SweepX, 0, NX - 1) \o Cat(SweepY, 0, NY - 1)
BondMove(s, d) == LET t == Nb(s, d, NX, NY) IN
    CASE d = 2 -> PM(0, s[1], t[1]) [] d = 0 -> PM(0, t[1], s[1]) [] d = 1 -> PM(1, t[2], s[2]) [] d = 3 -> PM(1, s[2], t[2])

(* ---------------------------------------------------------------- the program of one rank *)
(* the cut a rank works on in one round: side 0 for the first half of the ranks, 1 for the others *)
CutOf(r, ax, round) == [side |-> IF r < Half THEN 0 ELSE 1, i |-> MinI(round * Half + (r % Half), Cuts(ax) - 1)]
Gather(r, tag, val) == << [c |-> "gather", src |-> 0, tag |-> tag, val |-> <<>>] >>
                       \o [j \in 1..WS |-> [c |-> "bcast", src |-> j - 1, tag |-> <<tag, j - 1>>, val |-> IF j - 1 = r THEN val ELSE <<>>]]
RoundOf(r, m, ax, round) == LET v == <<r, CutOf(r, ax, round).side, CutOf(r, ax, round).i>> IN
    Gather(r, <<m, round, 1>>, v \o <<1>>) \o Gather(r, <<m, round, 2>>, v \o <<2>>)
RECURSIVE RoundsFrom(_, _, _, _)
RoundsFrom(r, m, ax, i) == IF i = Rounds(ax) THEN <<>> ELSE RoundOf(r, m, ax, i) \o RoundsFrom(r, m, ax, i + 1)
MoveProg(r, m, pm) == RoundsFrom(r, m, pm.ax, 0) \o << [c |-> "apply", src |-> pm.ax, tag |-> m, val |-> <<>>] >>
Bc(r, m, what) == [c |-> "bcast", src |-> 0, tag |-> <<m, what>>, val |-> IF r = 0 THEN <<0, what>> ELSE <<>>]
OpProg(r, m, o) == CASE o.op = "init" -> Cat(LAMBDA i : <<Bc(r, m, i)>>, 1, NX * NY)
                     [] o.op = "sweep" -> Cat(LAMBDA i : MoveProg(r, <<m, i>>, SweepMoves[i]), 1, Len(SweepMoves))
                     [] o.op = "bond" -> << Bc(r, m, 1), Bc(r, m, 2) >> \o MoveProg(r, <<m, 0>>, BondMove(o.s, o.d)[1])
                     [] OTHER -> <<>>
Program == [r \in Ranks |-> Cat(LAMBDA m : OpProg(r, m, Prog[m]), 1, Len(Prog))]
Last == [r \in Ranks |-> Len(Program[r])]

(* ---------------------------------------------------------------- execution: all interleavings *)
(* pc[r]: operations rank r has finished; a rank has issued its next one unless that is local *)
At1(r) == Program[r][pc[r] + 1]
Issued(r, i) == pc[r] >= i - 1
CanFinish(r) == /\ pc[r] < Last[r]
                /\ \/ At1(r).c = "apply"
                   \/ At1(r).c = "bcast" /\ Issued(At1(r).src, pc[r] + 1)
                   \/ At1(r).c = "gather" /\ \A q \in Ranks : Issued(q, pc[r] + 1)
(* what an application uses: for each side and cut the value of the rank that owns it *)
Owner(side, i) == side * Half + (i % Half)
Used(r, ax) == [side \in 0..1 |-> [i \in 0..Cuts(ax)-1 |->
    [p \in 1..2 |-> LET j == (i \div Half) * 2 * (WS + 1) + (p - 1) * (WS + 1) + 2 + Owner(side, i) IN inbox[r][j]]]]
Step(r) == /\ CanFinish(r) /\ pc' = [pc EXCEPT ![r] = @ + 1]
           /\ CASE At1(r).c = "apply" -> inbox' = [inbox EXCEPT ![r] = <<>>] /\ log' = [log EXCEPT ![r] = Append(@, Used(r, At1(r).src))]
                [] At1(r).c = "gather" -> inbox' = [inbox EXCEPT ![r] = Append(@, <<>>)] /\ UNCHANGED log
                [] OTHER -> LET v == Program[At1(r).src][pc[r] + 1].val IN
                            IF Len(v) = 4 THEN inbox' = [inbox EXCEPT ![r] = Append(@, v)] /\ UNCHANGED log
                            ELSE UNCHANGED inbox /\ log' = [log EXCEPT ![r] = Append(@, v)]
AllDone == \A r \in Ranks : pc[r] = Last[r]
Run == (\E r \in Ranks : Step(r)) /\ UNCHANGED gen
Idle == AllDone /\ UNCHANGED vars

Init == pc = [r \in Ranks |-> 0] /\ inbox = [r \in Ranks |-> <<>>] /\ log = [r \in Ranks |-> <<>>]
        /\ n = 0 /\ k = 0 /\ ph = "new" /\ hist = <<>>
Next == Run \/ Idle

(* ---- what has to hold ---- *)
(* ranks that wait in the same collective agree on what it is (a mismatch hangs or corrupts a real run) *)
Matching == \A r, q \in Ranks : (pc[r] = pc[q] /\ pc[r] < Last[r] /\ pc[q] < Last[q]) => At1(r).c = At1(q).c /\ At1(r).src = At1(q).src /\ At1(r).tag = At1(q).tag
SameLength == \A r \in Ranks : Last[r] = Last[0]
(* all ranks apply the same values, whatever the schedule *)
Agree == \A r, q \in Ranks : \A i \in 1..MinI(Len(log[r]), Len(log[q])) : log[r][i] = log[q][i]
(* what is applied at a cut was computed for that cut *)
Owned == \A r \in Ranks : \A e \in 1..Len(log[r]) : LET u == log[r][e] IN
    DOMAIN u = {0, 1} => \A side \in 0..1 : \A i \in DOMAIN u[side] : \A p \in 1..2 : u[side][i][p][2] = side /\ u[side][i][p][3] = i /\ u[side][i][p][4] = p
(* never stuck: checked as absence of deadlock, Idle being the only way to stop *)
(* a sweep moves every line in both directions of its axis *)
SweepCovers == {<<m.ax, m.a>> : m \in {SweepMoves[i] : i \in 1..Len(SweepMoves)}} = ({0} \X (0..NX-1)) \cup ({1} \X (0..NY-1))
               /\ {<<m.ax, m.b>> : m \in {SweepMoves[i] : i \in 1..Len(SweepMoves)}} = ({0} \X (0..NX-1)) \cup ({1} \X (0..NY-1))

(* ---------------------------------------------------------------- generating runs for replay *)
OpsG == {"sweep", "evolve_full", "evolve_simple", "measure", "chi", "saveload", "renew"}
GInit == Init
GNew == ph = "new" /\ n < NCases /\ n' = n + 1 /\ k' = 0 /\ ph' = "op" /\ hist' = <<>> /\ UNCHANGED net
GOp == /\ ph = "op" /\ k < Len1 /\ k' = k + 1
       /\ hist' = Append(hist, [op |-> RandomElement(OpsG), x |-> RandomElement(1..3)])
       /\ UNCHANGED <<n, ph>> /\ UNCHANGED net
GOut == ph = "op" /\ k = Len1 /\ ph' = "out" /\ UNCHANGED <<n, k, hist>> /\ UNCHANGED net
GBack == ph = "out" /\ ph' = "new" /\ UNCHANGED <<n, k, hist>> /\ UNCHANGED net
GNext == GNew \/ GOp \/ GOut \/ GBack
Export == ph = "out" =>
    Serialize(ToJson([ops |-> hist, sweep |-> SweepMoves,
                      bonds |-> [i \in 1..NX*NY |-> [d \in 1..4 |-> BondMove(SiteSeq(NX, NY)[i], d - 1)[1]]]]) \o "\n", "out.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
