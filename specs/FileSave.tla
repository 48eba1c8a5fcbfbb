------------------------------ MODULE FileSave ------------------------------
(* Saving a network as a sequence of file-system operations.  Content of a  *)
(* path: "old" (the previous complete network), "new" (the new one,         *)
(* complete), "part" (being written), "none".  A crash may stop the         *)
(* sequence after any operation; the named file must then be old or new.    *)
(*                                                                          *)
(* TraceSpec checks the operations recorded from a real save() call.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES fs, crashed, l
vars == <<fs, crashed, l>>
Target == "target"
Tmp == "tmp"
Paths == {Target, Tmp}

(* ----------------------- file-system operations ------------------------ *)
OpenW(f, p)  == [f EXCEPT ![p] = "part"]                 \* open for writing (truncates)
Finish(f, p) == [f EXCEPT ![p] = "new"]                  \* last byte written
Rename(f, p, q) == [f EXCEPT ![q] = f[p], ![p] = "none"]
Remove(f, p) == [f EXCEPT ![p] = "none"]

(* ------------- the protocol: write aside, then replace ----------------- *)
Step(i, f) == CASE i = 1 -> OpenW(f, Tmp) [] i = 2 -> Finish(f, Tmp) [] i = 3 -> Rename(f, Tmp, Target) [] OTHER -> f
Init == fs \in {[p \in Paths |-> IF p = Target THEN c ELSE "none"] : c \in {"none", "old"}} /\ crashed = FALSE /\ l = 1
Run == ~crashed /\ l <= 3 /\ fs' = Step(l, fs) /\ l' = l + 1 /\ UNCHANGED crashed
Crash == ~crashed /\ l <= 3 /\ crashed' = TRUE /\ UNCHANGED <<fs, l>>
\* a failed write is cleaned up
Fail == ~crashed /\ l = 2 /\ fs' = Remove(fs, Tmp) /\ crashed' = TRUE /\ l' = l
Next == Run \/ Crash \/ Fail
Complete == fs[Target] # "part"
NeverLost == [][fs[Target] = "old" => fs'[Target] \in {"old", "new"}]_vars

(* ------------------------ recorded operations -------------------------- *)
Trace == ndJsonDeserialize("trace.ndjson")
TInit == fs = [p \in {Trace[k].path : k \in 1..Len(Trace)} \cup {Trace[k].to : k \in 1..Len(Trace)} \cup {Target} |->
                 IF p = Target THEN "old" ELSE "none"]
         /\ crashed = FALSE /\ l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED crashed
         /\ LET e == Trace[l] IN
            fs' = CASE e.op = "open" -> OpenW(fs, e.path)
                    [] e.op = "close" -> Finish(fs, e.path)
                    [] e.op = "rename" -> Rename(fs, e.path, e.to)
                    [] e.op = "remove" -> Remove(fs, e.path)
                    [] OTHER -> fs
\* whenever the process may stop, the named file is a complete network
TComplete == fs[Target] \in {"old", "new"}
TAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
