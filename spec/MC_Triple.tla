------------------------------ MODULE MC_Triple -----------------------------
(* Direction A for triples: combinations of architecture, vendor, OS and    *)
(* environment, each with the predicates it matches.                        *)
(*   Mode "arch"   every architecture x OS x environment, vendors rotating  *)
(*        "vendor" every vendor x OS x environment, architectures rotating  *)
(*        "full"   the full product for architectures ALo..AHi              *)
EXTENDS CfgTriple, Json, TLC, IOUtils

CONSTANTS Mode, ALo, AHi
ASSUME TLCSet(8, JsonDeserialize(IOEnv.DOMAIN))
Dom == TLCGet(8)      \* [arch, vendor, os, env, preds]

VARIABLES x, o, e, v     \* numbers; x of an architecture (or, in mode "vendor", of a vendor)
vars == <<x, o, e, v>>
NA == Len(Dom.arch)
NV == Len(Dom.vendor)

Init == /\ x \in (IF Mode = "vendor" THEN 1..NV ELSE ALo..AHi)
        /\ o = 0 /\ e = 0 /\ v = 0
PickOs == o = 0 /\ o' \in 1..Len(Dom.os) /\ UNCHANGED <<x, e, v>>
PickEnv == o > 0 /\ e = 0 /\ e' \in 1..Len(Dom.env)
           /\ v' \in (IF Mode = "full" THEN 1..NV ELSE IF Mode = "vendor" THEN {x} ELSE {((x * 7 + o * 5 + e' * 3) % NV) + 1})
           /\ UNCHANGED <<x, o>>
Next == PickOs \/ PickEnv
Spec == Init /\ [][Next]_vars

T == LET a == Dom.arch[IF Mode = "vendor" THEN ((x * 7 + o * 5 + e * 3) % NA) + 1 ELSE x]
         s == Dom.os[o]
     IN [arch |-> a.canon, cls |-> a.cls, end |-> a.end, width |-> a.width, vendor |-> Dom.vendor[v],
         os |-> s.canon, base |-> s.base, env |-> Dom.env[e]]
Emit ==
  e > 0 =>
    LET t == T
        ps == Dom.preds
    IN PrintT("@" \o ToJson([t |-> <<t.arch, t.vendor, t.os, t.env>>,
                             m |-> SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : Holds(t, ps[i]))]))

(* For a single-valued key at most one of the compiler's values matches.    *)
(* Exceptions: a triple whose vendor names the OS (nuttx, rtems) although   *)
(* it also has one, or whose environment names another (hermitkernel); a    *)
(* bare wasi; avr, whose environment is always gnu; the aliases of          *)
(* architectures, which are not values of the compiler.                     *)
Single == {"arch", "vendor", "os", "env", "endian", "width"}
Excused(t, k) ==
  \/ k = "os" /\ t.vendor \in {Nuttx, Rtems} /\ t.os # "unknown"
  \/ k = "os" /\ t.vendor \in {Nuttx, Rtems} /\ t.env = "hermitkernel"
  \/ k = "os" /\ t.env = "hermitkernel" 
  \/ k = "env" /\ t.os = "wasi"
  \/ k = "env" /\ t.arch = "avr"
  \/ k = "env" /\ t.os = "horizon"
AtMostOne ==
  e > 0 =>
    LET t == T
        ps == Dom.preds
    IN \A k \in Single : Excused(t, k) \/
         Cardinality({i \in 1..Len(ps) : ps[i].k = k /\ ps[i].real = 1 /\ Holds(t, ps[i])}) <= 1
=============================================================================
