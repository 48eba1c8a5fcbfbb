------------------------------ MODULE Registry ------------------------------
(* Model registration and selection.  Classes are numbers >= 1; 0 is "no    *)
(* class"; names are strings.  A network either carries the class given to  *)
(* set_model or selects a registered class by the name in its configuration.*)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Names, Custom, NClasses, NNets, Len0
VARIABLES reg, nets, hist, pick
vars == <<reg, nets, hist, pick>>
Cls == 1..NClasses
AllNames == Names \cup {Custom}
NoNet == [kind |-> "none", name |-> "", cls |-> 0]

Init == reg = [n \in AllNames |-> 0] /\ nets = [i \in 1..NNets |-> NoNet] /\ hist = << >> /\ pick = ""
Log(r) == hist' = Append(hist, r)
Free == {i \in 1..NNets : nets[i].kind = "none"}

Register(n, c) == /\ reg[n] \in {0, c}
                  /\ reg' = [reg EXCEPT ![n] = c] /\ UNCHANGED nets
                  /\ Log([op |-> "Register", name |-> n, c |-> c, out |-> "ok", reg |-> reg'])
RegisterBad(n) == /\ UNCHANGED <<reg, nets>>
                  /\ Log([op |-> "RegisterBad", name |-> n, out |-> "TypeError", reg |-> reg])
NewByName(n) == /\ Free # {}
                /\ LET i == CHOOSE j \in Free : TRUE IN
                   /\ nets' = [nets EXCEPT ![i] = [kind |-> "net", name |-> n, cls |-> 0]]
                   /\ UNCHANGED reg
                   /\ Log([op |-> "NewByName", i |-> i, name |-> n, out |-> "ok", reg |-> reg])
NewUnset == /\ Free # {}
            /\ LET i == CHOOSE j \in Free : TRUE IN
               /\ nets' = [nets EXCEPT ![i] = [kind |-> "net", name |-> "", cls |-> 0]]
               /\ UNCHANGED reg
               /\ Log([op |-> "NewUnset", i |-> i, out |-> "ok", reg |-> reg])
\* set_model(cls, params) registers the class as "custom"; with a name, under that name
SetModel(i, c, n) ==
    /\ nets[i].kind = "net" /\ (n = Custom \/ reg[n] \in {0, c})
    /\ nets' = [nets EXCEPT ![i] = [kind |-> "net", name |-> n, cls |-> c]]
    /\ reg' = [reg EXCEPT ![n] = c]
    /\ Log([op |-> "SetModel", i |-> i, c |-> c, name |-> n, out |-> "ok", reg |-> reg'])
SetModelBad(i) ==
    /\ nets[i].kind = "net" /\ UNCHANGED <<reg, nets>>
    /\ Log([op |-> "SetModelBad", i |-> i, out |-> "TypeError", reg |-> reg])
\* the class in force
InForce(i) == IF nets[i].cls # 0 THEN nets[i].cls ELSE IF nets[i].name = "" THEN 0 ELSE reg[nets[i].name]
Use(i, how) ==
    /\ nets[i].kind = "net" /\ UNCHANGED <<reg, nets>>
    /\ Log([op |-> "Use", i |-> i, how |-> how,
            out |-> IF InForce(i) # 0 THEN "ok" ELSE IF nets[i].name = "" THEN "refused" ELSE "KeyError", cls |-> InForce(i), reg |-> reg])

Do(k) == \/ k = "Register" /\ \E n \in Names, c \in Cls : Register(n, c)
         \/ k = "RegisterBad" /\ \E n \in Names : RegisterBad(n)
         \/ k = "NewByName" /\ \E n \in Names : NewByName(n)
         \/ k = "NewUnset" /\ NewUnset
         \/ k = "SetModel" /\ \E i \in 1..NNets, c \in Cls, n \in AllNames : SetModel(i, c, n)
         \/ k = "SetModelBad" /\ \E i \in 1..NNets : SetModelBad(i)
         \/ k = "Use" /\ \E i \in 1..NNets, h \in {"measure", "evolve"} : Use(i, h)
KindSet == {"Register", "RegisterBad", "NewByName", "NewUnset", "SetModel", "SetModelBad", "Use"}
Some == \E i \in 1..NNets : nets[i].kind = "net"
Can(k) == CASE k \in {"NewByName", "NewUnset"} -> Free # {}
            [] k \in {"SetModel", "SetModelBad", "Use"} -> Some
            [] OTHER -> TRUE
Next == Len(hist) < Len0 /\ (\E k \in KindSet : Do(k)) /\ UNCHANGED pick
Choose == pick = "" /\ Len(hist) < Len0 /\ \E k \in KindSet \cup {"Use2"} :
             Can(IF k = "Use2" THEN "Use" ELSE k) /\ pick' = (IF k = "Use2" THEN "Use" ELSE k) /\ UNCHANGED <<reg, nets, hist>>
Act == pick \notin {"", "done"} /\ pick' = "" /\ (Do(pick) \/ (~ENABLED Do(pick) /\ UNCHANGED <<reg, nets, hist>>))
Finish == pick = "" /\ Len(hist) = Len0 /\ pick' = "done" /\ UNCHANGED <<reg, nets, hist>>
SimNext == Choose \/ Act \/ Finish

\* a class once selected by set_model stays in force on its network whatever is registered elsewhere
Sticky == [][\A i \in 1..NNets : (nets[i].cls # 0 /\ nets'[i] = nets[i]) => InForce(i)' = InForce(i)]_vars
OnlyModels == \A n \in AllNames : reg[n] \in 0..NClasses

Export == pick = "done" =>
    Serialize(ToJson([h |-> hist]) \o "\n", "beh.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
