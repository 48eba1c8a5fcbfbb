------------------------------- MODULE System -------------------------------
(* The life of iPEPS objects in one process.                                *)
(*                                                                          *)
(* A few network objects ("slots") and files are created, written, evolved, *)
(* renormalized, measured, copied, converted, saved, loaded and dropped.    *)
(* Every tensor is represented by a token [id, p]: two tensors with the     *)
(* same id hold the same numbers, p is the lowest precision the numbers     *)
(* have been rounded to since they were computed.  Next to the tokens every *)
(* network carries its classical configuration: the models used here have   *)
(* gates that map product states to product states (permutations, the      *)
(* identity, or cooling to a prescribed level), so the physical content of  *)
(* a network after any history is a known configuration of levels 0..2.     *)
(*                                                                          *)
(* The behaviours of this module are replayed into the real library and the *)
(* whole abstract state is compared after every operation.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS
    NSites,      \* number of sites of the unit cell
    Bonds,       \* the network's bond list, <<i1, i2, k>> with site indices
    Slots,       \* number of network objects
    Files,       \* number of files
    NModels,     \* number of model classes
    NParams,     \* parameter values 0..NParams-1
    DTypes,      \* dtypes in play, subset of {"f64","f32","c128","c64"}
    Chis,        \* boundary dimensions in play
    Ops,         \* operations in play
    Kinds,       \* the operations as a sequence; repetitions are weights in random simulation
    GateKind,    \* "shear", "zero", "cool"
    MaxSteps,    \* largest number of steps of one evolve call
    MaxMult,     \* largest multiple of the base time step
    Len0         \* length of the exported behaviours

VARIABLES slots, files, gates, nxt, hist, pick
vars == <<slots, files, gates, nxt, hist, pick>>

Site == 1..NSites
Prec(d) == IF d \in {"f32", "c64"} THEN 32 ELSE 64
Cx(d) == d \in {"c128", "c64"}
\* converting complex numbers to a real dtype would drop their imaginary parts
Convertible(d1, d2) == Cx(d1) => Cx(d2)
Min(a, b) == IF a < b THEN a ELSE b

(* ------------------------------- models -------------------------------- *)
\* bond gate of model m with parameter p: one end is shifted by a level that
\* depends on the other end
ShC(j, m, p) == 1 + ((j + m + p) % 2)
ShD(j, m, p) == (j * m + p + (j \div 2)) % 3
ShT(j, m, p) == (j + m + (p \div 2)) % 2
Level(i, m, p) == (m + p + i) % 3
InitLevel(i, m, p) == (2*m + i + (i \div 2) + p) % 3

ApplyBond(c, j, m, p, mult) ==
    LET a == Bonds[j][1]
        b == Bonds[j][2]
    IN IF ShT(j, m, p) = 0
       THEN [c EXCEPT ![b] = (@ + mult * (ShC(j,m,p) * c[a] + ShD(j,m,p))) % 3]
       ELSE [c EXCEPT ![a] = (@ + mult * (ShC(j,m,p) * c[b] + ShD(j,m,p))) % 3]

\* one step applies every bond of the sequence `order` once
RECURSIVE ApplySeq(_, _, _, _, _)
ApplySeq(c, order, m, p, mult) ==
    IF order = << >> THEN c
    ELSE ApplySeq(ApplyBond(c, Head(order), m, p, mult), Tail(order), m, p, mult)

Forward == [j \in 1..Len(Bonds) |-> j]
Backward == [j \in 1..Len(Bonds) |-> Len(Bonds) + 1 - j]

RECURSIVE Steps(_, _, _, _, _, _)
Steps(c, rev, n, m, p, mult) ==
    IF n = 0 THEN c
    ELSE Steps(ApplySeq(c, IF rev THEN Backward ELSE Forward, m, p, mult), ~rev, n - 1, m, p, mult)

EvolvedCfg(c, rev, n, m, p, mult) ==
    CASE GateKind = "shear" -> Steps(c, rev, n, m, p, mult)
      [] GateKind = "zero"  -> c
      [] GateKind = "cool"  -> IF n > 0 /\ mult > 0 THEN [i \in Site |-> Level(i, m, p)] ELSE c
      [] OTHER -> c

(* ------------------------------- objects ------------------------------- *)
None == [kind |-> "none"]
Fresh(k, d) == [id |-> nxt + k, p |-> Prec(d)]
FreshA(d) == [i \in Site |-> Fresh(i, d)]
FreshB(d) == [i \in Site |-> Fresh(NSites + i, d)]
Cast(tok, d) == [tok EXCEPT !.p = Min(@, Prec(d))]
CastAll(f, d) == [i \in Site |-> Cast(f[i], d)]
Bump == nxt' = nxt + 2*NSites

Live(i) == slots[i].kind # "none"
IsIpeps(i) == slots[i].kind = "ipeps"
IsTN(i) == slots[i].kind = "tn"
HasModel(i) == slots[i].mdl # 0
Free == {i \in 1..Slots : ~Live(i)}
FirstFree == CHOOSE i \in Free : \A j \in Free : i <= j

Log(rec) == hist' = Append(hist, rec @@ [slots |-> slots', files |-> files'])
Keep == UNCHANGED <<files, gates>>

Init == /\ slots = [i \in 1..Slots |-> None]
        /\ files = [f \in 1..Files |-> [kind |-> "none"]]
        /\ gates = << >>
        /\ nxt = 1
        /\ hist = << >>
        /\ pick = ""

(* ---------------------------- construction ----------------------------- *)
New(d, chi, m, p) ==
    /\ "New" \in Ops /\ Free # {}
    /\ LET i == FirstFree IN
       /\ slots' = [slots EXCEPT ![i] =
             [kind |-> "ipeps", A |-> FreshA(d), B |-> FreshB(d), cfg |-> [s \in Site |-> 0],
              dt |-> d, chi |-> chi, mdl |-> m, par |-> p, inited |-> FALSE, rev |-> FALSE]]
       /\ Bump /\ Keep
       /\ Log([op |-> "New", s |-> i, dt |-> d, chi |-> chi, m |-> m, p |-> p])

\* Ipeps(config, ipeps=network)
NewFrom(j, d, chi, m, p) ==
    /\ "NewFrom" \in Ops /\ Free # {} /\ Live(j) /\ Convertible(slots[j].dt, d)
    /\ LET i == FirstFree IN
       /\ slots' = [slots EXCEPT ![i] =
             [kind |-> "ipeps", A |-> CastAll(slots[j].A, d), B |-> CastAll(slots[j].B, d), cfg |-> slots[j].cfg,
              dt |-> d, chi |-> chi, mdl |-> m, par |-> p, inited |-> TRUE, rev |-> slots[j].rev]]
       /\ UNCHANGED nxt /\ Keep
       /\ Log([op |-> "NewFrom", s |-> i, src |-> j, dt |-> d, chi |-> chi, m |-> m, p |-> p])

Copy(j) ==
    /\ "Copy" \in Ops /\ Free # {} /\ Live(j)
    /\ LET i == FirstFree IN
       /\ slots' = [slots EXCEPT ![i] = [slots[j] EXCEPT !.kind = "tn", !.mdl = 0, !.par = 0, !.inited = TRUE]]
       /\ UNCHANGED nxt /\ Keep
       /\ Log([op |-> "Copy", s |-> i, src |-> j])

To(j, d) ==
    /\ "To" \in Ops /\ Free # {} /\ Live(j) /\ Convertible(slots[j].dt, d)
    /\ LET i == FirstFree IN
       /\ slots' = [slots EXCEPT ![i] = [slots[j] EXCEPT !.kind = "tn", !.mdl = 0, !.par = 0, !.inited = TRUE, !.dt = d,
                                          !.A = CastAll(slots[j].A, d), !.B = CastAll(slots[j].B, d)]]
       /\ UNCHANGED nxt /\ Keep
       /\ Log([op |-> "To", s |-> i, src |-> j, dt |-> d])

CopyFrom(i, j) ==
    /\ "CopyFrom" \in Ops /\ i # j /\ Live(i) /\ Live(j) /\ Convertible(slots[j].dt, slots[i].dt)
    /\ slots' = [slots EXCEPT ![i] = [slots[i] EXCEPT !.A = CastAll(slots[j].A, slots[i].dt),
                                        !.B = CastAll(slots[j].B, slots[i].dt), !.cfg = slots[j].cfg,
                                        !.inited = TRUE, !.rev = slots[j].rev]]
    /\ UNCHANGED nxt /\ Keep
    /\ Log([op |-> "CopyFrom", s |-> i, src |-> j])

Drop(i) ==
    /\ "Drop" \in Ops /\ Live(i)
    /\ slots' = [slots EXCEPT ![i] = None]
    /\ UNCHANGED nxt /\ Keep
    /\ Log([op |-> "Drop", s |-> i])

(* --------------------------- writing tensors --------------------------- *)
\* the user gives every site tensor of the network
SetAll(i, base) ==
    /\ "SetAll" \in Ops /\ Live(i) /\ (IsTN(i) \/ slots[i].inited)
    /\ slots' = [slots EXCEPT ![i] = [slots[i] EXCEPT !.A = FreshA(slots[i].dt),
                    !.cfg = [s \in Site |-> (base + s * s) % 3]]]
    /\ Bump /\ Keep
    /\ Log([op |-> "SetAll", s |-> i, base |-> base])

\* ... or the tensor of one site
SetOne(i, s, lev) ==
    /\ "SetOne" \in Ops /\ Live(i) /\ (IsTN(i) \/ slots[i].inited)
    /\ slots' = [slots EXCEPT ![i] = [slots[i] EXCEPT !.A[s] = Fresh(s, slots[i].dt), !.cfg[s] = lev]]
    /\ Bump /\ Keep
    /\ Log([op |-> "SetOne", s |-> i, site |-> s, lev |-> lev])

\* tensors modified in place, and one boundary tensor replaced in the lists
Poke(i, s) ==
    /\ "Poke" \in Ops /\ Live(i) /\ (IsTN(i) \/ slots[i].inited)
    /\ slots' = [slots EXCEPT ![i] = [slots[i] EXCEPT !.A[s] = Fresh(s, slots[i].dt),
                                                      !.B[s] = Fresh(NSites + s, slots[i].dt)]]
    /\ Bump /\ Keep
    /\ Log([op |-> "Poke", s |-> i, site |-> s])

(* ------------------------------ settings ------------------------------- *)
SetModel(i, m, p) ==
    /\ "SetModel" \in Ops /\ IsIpeps(i)
    /\ slots' = [slots EXCEPT ![i] = [slots[i] EXCEPT !.mdl = m, !.par = p]]
    /\ UNCHANGED nxt /\ Keep
    /\ Log([op |-> "SetModel", s |-> i, m |-> m, p |-> p])

SetParam(i, p) ==
    /\ "SetParam" \in Ops /\ IsIpeps(i) /\ HasModel(i)
    /\ slots' = [slots EXCEPT ![i] = [slots[i] EXCEPT !.par = p]]
    /\ UNCHANGED nxt /\ Keep
    /\ Log([op |-> "SetParam", s |-> i, p |-> p])

SetChi(i, chi) ==
    /\ "SetChi" \in Ops /\ IsIpeps(i)
    /\ slots' = [slots EXCEPT ![i] = [slots[i] EXCEPT !.chi = chi]]
    /\ UNCHANGED nxt /\ Keep
    /\ Log([op |-> "SetChi", s |-> i, chi |-> chi])

(* ------------------------------ dynamics ------------------------------- *)
\* em = 0: the network's own model; otherwise model em with parameter ep is
\* passed to the call and is not remembered
Evolve(i, mult, n, em, ep) ==
    /\ "Evolve" \in Ops /\ IsIpeps(i)
    /\ IF em = 0 THEN HasModel(i) ELSE "Explicit" \in Ops
    /\ LET sl == slots[i]
           m == IF em = 0 THEN sl.mdl ELSE em
           p == IF em = 0 THEN sl.par ELSE ep
           c0 == IF sl.inited THEN sl.cfg ELSE [s \in Site |-> InitLevel(s, m, p)]
           newA == n > 0 \/ ~sl.inited
       IN slots' = [slots EXCEPT ![i] = [sl EXCEPT
                 !.A = IF newA THEN FreshA(sl.dt) ELSE sl.A,
                 !.B = FreshB(sl.dt),
                 !.cfg = EvolvedCfg(c0, sl.rev, n, m, p, mult),
                 !.inited = TRUE,
                 !.rev = IF n % 2 = 0 THEN sl.rev ELSE ~sl.rev]]
    /\ Bump /\ Keep
    /\ Log([op |-> "Evolve", s |-> i, mult |-> mult, n |-> n, m |-> em, p |-> ep])

Renormalize(i) ==
    /\ "Renormalize" \in Ops /\ IsIpeps(i)
    /\ slots' = [slots EXCEPT ![i] = [slots[i] EXCEPT !.B = FreshB(slots[i].dt)]]
    /\ Bump /\ Keep
    /\ Log([op |-> "Renormalize", s |-> i])

(* ------------------------------ observers ------------------------------ *)
Measure(i, em, ep) ==
    /\ "Measure" \in Ops /\ IsIpeps(i)
    /\ IF em = 0 THEN HasModel(i) ELSE "Explicit" \in Ops
    /\ UNCHANGED <<slots, nxt>> /\ Keep
    /\ Log([op |-> "Measure", s |-> i, m |-> em, p |-> ep])

Rdms(i) ==
    /\ "Rdms" \in Ops /\ Live(i)
    /\ UNCHANGED <<slots, nxt>> /\ Keep
    /\ Log([op |-> "Rdms", s |-> i])

BuildGate(m, p, mult) ==
    /\ "BuildGate" \in Ops /\ Len(gates) < 3
    /\ gates' = Append(gates, <<m, p, mult>>)
    /\ UNCHANGED <<slots, nxt, files>>
    /\ Log([op |-> "BuildGate", m |-> m, p |-> p, mult |-> mult])

(* -------------------------------- files -------------------------------- *)
Save(i, f) ==
    /\ "Save" \in Ops /\ Live(i)
    /\ files' = [files EXCEPT ![f] = [kind |-> "file", dt |-> slots[i].dt, A |-> slots[i].A, B |-> slots[i].B, cfg |-> slots[i].cfg]]
    /\ UNCHANGED <<slots, nxt, gates>>
    /\ Log([op |-> "Save", s |-> i, f |-> f])

\* a save that fails part way leaves the file as it was
SaveFails(i, f) ==
    /\ "SaveFails" \in Ops /\ Live(i)
    /\ UNCHANGED <<slots, nxt>> /\ Keep
    /\ Log([op |-> "SaveFails", s |-> i, f |-> f])

Load(i, f) ==
    /\ "Load" \in Ops /\ Live(i) /\ files[f].kind = "file" /\ Convertible(files[f].dt, slots[i].dt)
    /\ slots' = [slots EXCEPT ![i] = [slots[i] EXCEPT !.A = CastAll(files[f].A, slots[i].dt),
                    !.B = CastAll(files[f].B, slots[i].dt), !.cfg = files[f].cfg, !.inited = TRUE]]
    /\ UNCHANGED nxt /\ Keep
    /\ Log([op |-> "Load", s |-> i, f |-> f])

Model0 == IF "Explicit" \in Ops THEN 0..NModels ELSE {0}
Param == 0..NParams-1
MPpairs == ({0} \X {0}) \cup ((Model0 \ {0}) \X Param)

\* Which kind of operation comes next is chosen first, so that in random
\* simulation every kind is equally likely whatever its number of arguments.
Do(op) ==
    \/ op = "New" /\ \E d \in DTypes, c \in Chis, m \in 1..NModels, p \in Param : New(d, c, m, p)
    \/ op = "NewNoModel" /\ \E d \in DTypes, c \in Chis : New(d, c, 0, 0)
    \/ op = "NewFrom" /\ \E j \in 1..Slots, d \in DTypes, c \in Chis, m \in 1..NModels, p \in Param : NewFrom(j, d, c, m, p)
    \/ op = "Copy" /\ \E j \in 1..Slots : Copy(j)
    \/ op = "To" /\ \E j \in 1..Slots, d \in DTypes : To(j, d)
    \/ op = "CopyFrom" /\ \E i, j \in 1..Slots : CopyFrom(i, j)
    \/ op = "Drop" /\ \E i \in 1..Slots : Drop(i)
    \/ op = "SetAll" /\ \E i \in 1..Slots, b \in 0..2 : SetAll(i, b)
    \/ op = "SetOne" /\ \E i \in 1..Slots, s \in Site, b \in 0..2 : SetOne(i, s, b)
    \/ op = "Poke" /\ \E i \in 1..Slots, s \in Site : Poke(i, s)
    \/ op = "SetModel" /\ \E i \in 1..Slots, m \in 1..NModels, p \in Param : SetModel(i, m, p)
    \/ op = "SetParam" /\ \E i \in 1..Slots, p \in Param : SetParam(i, p)
    \/ op = "SetChi" /\ \E i \in 1..Slots, c \in Chis : SetChi(i, c)
    \/ op = "Evolve" /\ \E i \in 1..Slots, mu \in 0..MaxMult, n \in 0..MaxSteps, mp \in MPpairs : Evolve(i, mu, n, mp[1], mp[2])
    \/ op = "Renormalize" /\ \E i \in 1..Slots : Renormalize(i)
    \/ op = "Measure" /\ \E i \in 1..Slots, mp \in MPpairs : Measure(i, mp[1], mp[2])
    \/ op = "Rdms" /\ \E i \in 1..Slots : Rdms(i)
    \/ op = "BuildGate" /\ \E m \in 1..NModels, p \in Param, mu \in 0..MaxMult : BuildGate(m, p, mu)
    \/ op = "Save" /\ \E i \in 1..Slots, f \in 1..Files : Save(i, f)
    \/ op = "SaveFails" /\ \E i \in 1..Slots, f \in 1..Files : SaveFails(i, f)
    \/ op = "Load" /\ \E i \in 1..Slots, f \in 1..Files : Load(i, f)

AnyLive == \E i \in 1..Slots : Live(i)
AnyIpeps == \E i \in 1..Slots : IsIpeps(i)
AnyWritable == \E i \in 1..Slots : Live(i) /\ (IsTN(i) \/ slots[i].inited)
AnyModel == \E i \in 1..Slots : IsIpeps(i) /\ HasModel(i)
Can(op) ==
    CASE op \in {"New", "NewNoModel"} -> Free # {}
      [] op \in {"NewFrom", "Copy", "To"} -> Free # {} /\ AnyLive
      [] op \in {"CopyFrom"} -> \E i, j \in 1..Slots : i # j /\ Live(i) /\ Live(j) /\ Convertible(slots[j].dt, slots[i].dt)
      [] op \in {"SetAll", "SetOne", "Poke"} -> AnyWritable
      [] op \in {"SetModel", "SetChi", "Renormalize"} -> AnyIpeps
      [] op \in {"Evolve", "Measure", "SetParam"} -> AnyModel
      [] op \in {"Load"} -> \E f \in 1..Files, i \in 1..Slots :
             Live(i) /\ files[f].kind = "file" /\ Convertible(files[f].dt, slots[i].dt)
      [] op \in {"BuildGate"} -> Len(gates) < 3
      [] OTHER -> AnyLive

\* exhaustive exploration
Next == Len(hist) < Len0 /\ (\E op \in Ops : Do(op)) /\ UNCHANGED pick

\* random simulation
Choose == pick = "" /\ Len(hist) < Len0 /\ \E k \in 1..Len(Kinds) :
             Can(Kinds[k]) /\ pick' = Kinds[k] /\ UNCHANGED <<slots, files, gates, nxt, hist>>
Act == pick \notin {"", "done"} /\ Do(pick) /\ pick' = ""
Finish == pick = "" /\ Len(hist) = Len0 /\ pick' = "done" /\ UNCHANGED <<slots, files, gates, nxt, hist>>
SimNext == Choose \/ Act \/ Finish

(* ------------------------- properties of the design -------------------- *)
TypeOK ==
    /\ \A i \in 1..Slots : Live(i) => /\ slots[i].dt \in DTypes /\ slots[i].chi \in Chis
                                      /\ \A s \in Site : slots[i].cfg[s] \in 0..2
                                      /\ \A s \in Site : slots[i].A[s].p <= Prec(slots[i].dt) /\ slots[i].A[s].id < nxt
                                      /\ slots[i].par \in Param /\ slots[i].mdl \in 0..NModels
\* tensors of one network are pairwise different objects' contents
DistinctIds == \A i \in 1..Slots : Live(i) =>
    \A s, t \in Site : (s # t => slots[i].A[s].id # slots[i].A[t].id) /\ slots[i].A[s].id # slots[i].B[t].id
\* equal content means equal configuration
ContentDeterminesCfg == \A i, j \in 1..Slots : Live(i) /\ Live(j) /\ GateKind = "shear" =>
    \A s \in Site : slots[i].A[s].id = slots[j].A[s].id => slots[i].cfg[s] = slots[j].cfg[s]
\* a step changes at most the slot it operates on
Isolation == [][\A i \in 1..Slots : slots'[i] # slots[i] => hist'[Len(hist')].s = i]_vars
\* a network that has a state never loses it
StateKept == [][\A i \in 1..Slots : (Live(i) /\ slots[i].inited /\ slots'[i].kind # "none") => slots'[i].inited]_vars
\* (hist is also unchanged while the next operation is being chosen)
Observers == {"Measure", "Rdms", "BuildGate", "Save", "SaveFails"}
ObserversObserve == [][(hist' # hist /\ hist'[Len(hist')].op \in Observers) => slots' = slots]_vars

Export == pick = "done" =>
    Serialize(ToJson([h |-> hist]) \o "\n", "beh.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
\* every history is a behaviour to replay (exhaustive runs)
ExportAll == Len(hist) = Len0 =>
    Serialize(ToJson([h |-> hist]) \o "\n", "beh.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================