---------------------------- MODULE Trace_Table -----------------------------
(* The built-in table and the named constants as the library reports them,  *)
(* one entry per step, against the recorded compiler release.               *)
(* The release is given by its targets, or by what the compiler printed for *)
(* them.                                                                    *)
EXTENDS CfgListing, Json, TLC, IOUtils

Release ==
  IF "TARGETS" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.TARGETS)
  ELSE LET r == JsonDeserialize(IOEnv.LISTING)
       IN [version |-> r.version, targets |-> TLCEval([i \in 1..Len(r.targets) |-> Described(r.targets[i].triple, r.targets[i].lines)])]
ASSUME TLCSet(7, TLCEval(Release))
ASSUME TLCSet(8, ndJsonDeserialize(IOEnv.TRACE))
Ts == TLCGet(7).targets
Trace == TLCGet(8)
ASSUME TLCSet(9, TLCEval([k \in {"abi", "arch", "vendor", "os", "family", "env", "panic"} |-> FieldValues(k, TLCGet(7).targets)]))

VARIABLES l, seen      \* position in the trace, targets read
vars == <<l, seen>>
Line == Trace[l]

Init == l = 1 /\ seen = 0
Head_ == l = 1 /\ l' = 2 /\ UNCHANGED seen
Entry == l <= Len(Trace) /\ "triple" \in DOMAIN Line /\ l' = l + 1 /\ seen' = seen + 1
Constant == l <= Len(Trace) /\ "type" \in DOMAIN Line /\ l' = l + 1 /\ UNCHANGED seen
Next == Head_ \/ Entry \/ Constant
Spec == Init /\ [][Next]_vars

Keys == [Abi |-> "abi", Arch |-> "arch", Vendor |-> "vendor", Os |-> "os", Family |-> "family",
         Env |-> "env", Panic |-> "panic"]
RECURSIVE Split(_, _, _)
Split(s, i, cur) ==      \* at underscores
  IF i > Len(s) THEN <<cur>>
  ELSE IF s[i] = 95 THEN <<cur>> \o Split(s, i + 1, <<>>)
  ELSE Split(s, i + 1, Append(cur, s[i]))

ConstOk(c) ==
  CASE c.type = "Families" -> c.value = Split(c.name, 1, <<>>)
    [] c.type = "HasAtomics" -> c.value = Tail(Split(c.name, 1, <<>>))
    [] OTHER -> /\ Len(c.value) = 1
                /\ c.value[1] \in TLCGet(9)[Keys[c.type]]
                /\ Underscored(c.value[1]) = c.name

Fields == {"triple", "os", "abi", "arch", "env", "vendor", "width", "endian", "panic"}
(* the sets are those that anyone would make of the same elements: they are in *)
(* the order in which the library wants them                                    *)
Wrong(a, b) == {f \in Fields : a[f] # b[f]} \cup (IF a.canon = 1 THEN {} ELSE {"order"})
               \cup (IF ElemsOf(a.fam) # ElemsOf(b.fam) \/ Len(a.fam) # Len(b.fam) THEN {"fam"} ELSE {})
               \cup (IF ElemsOf(a.atomics) # ElemsOf(b.atomics) \/ Len(a.atomics) # Len(b.atomics) THEN {"atomics"} ELSE {})
Judged ==
  IF l > Len(Trace) THEN IF seen = Len(Ts) THEN {} ELSE {"missing"}
  ELSE IF l = 1 THEN (IF Line.version = TLCGet(7).version THEN {} ELSE {"version"})
                     \cup (IF Line.n = Len(Ts) THEN {} ELSE {"count"})
  ELSE IF "triple" \in DOMAIN Line
       THEN IF seen >= Len(Ts) THEN {"extra"} ELSE Wrong(Line, Ts[seen + 1])
  ELSE IF ConstOk(Line) THEN {} ELSE {"constant"}
Report == Judged # {} => PrintT("@" \o ToJson([l |-> l, fail |-> Judged]))
=============================================================================
