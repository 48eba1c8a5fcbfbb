------------------------------- MODULE Config -------------------------------
(* What a configuration means.  A history creates networks one after the    *)
(* other in one process, each from its own configuration, in an environment *)
(* that may change in between; `nets` holds the effective settings of every *)
(* network created, which later creations must not disturb.                 *)
(*                                                                          *)
(* Options are listed with their documented defaults and some other values  *)
(* (docs/source/input_settings.rst).  Values are opaque strings here.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Len0
VARIABLES env, nets, hist, ph
vars == <<env, nets, hist, ph>>

O(sec, name, default, others) == [sec |-> sec, name |-> name, default |-> default, vals |-> <<default>> \o others]
Options == <<
    O("TN", "nx", "2", <<"1", "3">>),
    O("TN", "ny", "2", <<"1", "3">>),
    O("dims", "phys", "2", <<"3">>),
    O("dims", "bond", "2", <<"1", "3">>),
    O("dims", "chi", "20", <<"4", "7">>),
    O("ctmrg", "steps", "40", <<"0", "3">>),
    O("ctmrg", "projectors", "half-system", <<"full-system">>),
    O("ctmrg", "svd_type", "rsvd", <<"full-rank">>),
    O("ctmrg", "svd_cutoff", "1e-12", <<"1e-08">>),
    O("ctmrg", "rsvd_niter", "2", <<"0", "5">>),
    O("ctmrg", "rsvd_oversampling", "2", <<"0", "7">>),
    O("ctmrg", "disable_progressbar", "False", <<"True">>),
    O("evolution", "backend", "torch", <<"cutensor">>),
    O("evolution", "update_type", "full", <<"simple">>),
    O("evolution", "use_gauge_fix", "True", <<"False">>),
    O("evolution", "gauge_fix_atol", "1e-12", <<"1e-09">>),
    O("evolution", "positive_approx_cutoff", "1e-12", <<"1e-07">>),
    O("evolution", "als_niter", "100", <<"3">>),
    O("evolution", "als_tol", "1e-15", <<"1e-06">>),
    O("evolution", "als_method", "cholesky", <<"pinv">>),
    O("evolution", "als_epsilon", "1e-12", <<"1e-05">>),
    O("evolution", "disable_progressbar", "False", <<"True">>),
    O("model", "name", "None", <<"heisenberg", "ising", "custom">>),
    O("model", "params", "{}", <<"{'J': 2.0}", "{'jz': 1.0, 'hx': 0.5}">>),
    O("top", "dtype", "float64", <<"float32", "complex128", "complex64">>),
    O("top", "device", "cpu", <<"cuda">>)
>>
NO == Len(Options)
Envs == {"none", "batch", "interactive_name", "interactive_partition"}
(* a value given as text, or (dtype and device) as the object itself *)
Given(o) == {[v |-> o.vals[i], how |-> h] : i \in 1..Len(o.vals), h \in {"text", "object"}}
Forms(o) == IF o.sec = "top" THEN {"text", "object"} ELSE {"text"}

(* ---- effective settings ---- *)
Chosen(c, i) == IF c[i].how = "omitted" THEN Options[i].default ELSE c[i].v
Bar(o) == o.name = "disable_progressbar"
Effective(c, e) == [i \in 1..NO |->
    LET o == Options[i]
        v == Chosen(c, i) IN
    CASE Bar(o) /\ e = "batch" -> "True"                       \* batch jobs show no progress bars
      [] o.name = "backend" /\ v = "cutensor" -> "torch"       \* the extension is not available here
      [] o.name = "device" /\ v = "cuda" -> "cpu"              \* no GPU here
      [] OTHER -> v]

Init == env = "none" /\ nets = <<>> /\ hist = <<>> /\ ph = [k |-> "idle"]
Omitted == [v |-> "", how |-> "omitted"]

SetEnv == /\ ph.k = "idle" /\ Len(hist) < Len0
          /\ \E e \in {RandomElement(Envs)} : ph' = [k |-> "env", e |-> e]
          /\ UNCHANGED <<env, nets, hist>>
DoEnv == /\ ph.k = "env" /\ env' = ph.e /\ ph' = [k |-> "ready"] /\ UNCHANGED <<nets, hist>>
(* every option independently omitted or given *)
PickCfg == /\ ph.k = "ready"
           /\ ph' = [k |-> "cfg", dens |-> RandomElement(1..4), bad |-> RandomElement(1..8),
                     c |-> [i \in 1..NO |-> [r |-> RandomElement(1..4), v |-> RandomElement(1..Len(Options[i].vals)), h |-> RandomElement(1..2)]]]
           /\ UNCHANGED <<env, nets, hist>>
Cfg == [i \in 1..NO |->
          IF ph.c[i].r > ph.dens THEN Omitted
          ELSE [v |-> Options[i].vals[ph.c[i].v], how |-> IF Options[i].sec = "top" /\ ph.c[i].h = 1 THEN "object" ELSE "text"]]
Secs == <<"ctmrg", "evolution", "TN", "model", "top">>
Create == /\ ph.k = "cfg"
          /\ LET bad == ph.bad <= Len(Secs) /\ Len(hist) % 2 = 1
                 eff == Effective(Cfg, env) IN
             /\ hist' = Append(hist, [env |-> env, cfg |-> Cfg, bad |-> IF bad THEN Secs[ph.bad] ELSE "",
                                      eff |-> IF bad THEN <<>> ELSE eff])
             /\ nets' = IF bad THEN nets ELSE Append(nets, eff)      \* an unknown option is rejected
          /\ ph' = [k |-> "idle"] /\ UNCHANGED env
Finish == ph.k = "idle" /\ Len(hist) = Len0 /\ ph' = [k |-> "done"] /\ UNCHANGED <<env, nets, hist>>
Next == SetEnv \/ DoEnv \/ PickCfg \/ Create \/ Finish

(* ---- what is promised ---- *)
(* what is given takes effect with exactly that value, what is omitted has its default: both up to the fallbacks *)
Means == \A k \in 1..Len(hist) : hist[k].bad = "" => \A i \in 1..NO :
    LET c == hist[k].cfg[i]
        e == hist[k].eff[i] IN
    \/ e = (IF c.how = "omitted" THEN Options[i].default ELSE c.v)
    \/ Bar(Options[i]) /\ hist[k].env = "batch"
    \/ Options[i].name \in {"backend", "device"} /\ c.how # "omitted"
Independent == [][\A k \in 1..Len(nets) : nets'[k] = nets[k]]_vars
Export == ph.k = "done" =>
    Serialize(ToJson([h |-> hist, opts |-> [i \in 1..NO |-> [sec |-> Options[i].sec, name |-> Options[i].name]]]) \o "\n", "out.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
