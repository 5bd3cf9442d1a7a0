------------------------------ MODULE CfgTarget -----------------------------
(* Targets, and what the compiler sets for them.  A target description is   *)
(* [triple, os, abi, arch, env, vendor, fam, width, endian, atomics, panic]:*)
(* texts are code point sequences; os, abi, env and vendor are <<>> (absent)*)
(* or <<value>>; fam and atomics are sequences.  A predicate is             *)
(* <<key, value>>.                                                          *)
EXTENDS CfgText, Integers, FiniteSets

Or(o, d) == IF o = <<>> THEN d ELSE o[1]
ElemsOf(s) == {s[i] : i \in 1..Len(s)}

(* The key-value pairs the compiler sets for a target, as far as they can   *)
(* be asked about.  An operating system that is absent is called "none", an *)
(* absent vendor "unknown"; an absent ABI or environment is empty.          *)
CfgSet(T) ==
  { <<"os", Or(T.os, W_none)>>, <<"abi", Or(T.abi, <<>>)>>, <<"env", Or(T.env, <<>>)>>,
    <<"vendor", Or(T.vendor, W_unknown)>>, <<"arch", T.arch>>, <<"endian", T.endian>>,
    <<"width", T.width>>, <<"panic", T.panic>> }
  \cup {<<"family", f>> : f \in ElemsOf(T.fam)}
  \cup {<<"atomic", a>> : a \in ElemsOf(T.atomics)}

Matches(T, p) == p \in CfgSet(T)

SingleValued == {"os", "abi", "env", "vendor", "arch", "endian", "width", "panic"}

(* Field values that occur in a collection of targets. *)
FieldValues(key, Ts) ==
  LET opt(o) == IF o = <<>> THEN {} ELSE {o[1]} IN
  CASE key = "os" -> UNION {opt(Ts[i].os) : i \in 1..Len(Ts)}
    [] key = "abi" -> UNION {opt(Ts[i].abi) : i \in 1..Len(Ts)}
    [] key = "env" -> UNION {opt(Ts[i].env) : i \in 1..Len(Ts)}
    [] key = "vendor" -> UNION {opt(Ts[i].vendor) : i \in 1..Len(Ts)}
    [] key = "arch" -> {Ts[i].arch : i \in 1..Len(Ts)}
    [] key = "panic" -> {Ts[i].panic : i \in 1..Len(Ts)}
    [] key = "family" -> UNION {ElemsOf(Ts[i].fam) : i \in 1..Len(Ts)}
    [] key = "triple" -> {Ts[i].triple : i \in 1..Len(Ts)}

---------------------------------------------------------------------------
(* Order of texts: by code point, which is the order of their UTF-8 bytes.  *)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LessFrom(a, b, i + 1)
Less(a, b) == LessFrom(a, b, 1)
Cmp(a, b) == IF a = b THEN 1 ELSE IF Less(a, b) THEN 0 ELSE 2     \* less, equal, greater

(* Lookup of a triple: the number of its entry, or 0. *)
Scan(Ts, s) == IF \E i \in 1..Len(Ts) : Ts[i].triple = s
               THEN CHOOSE i \in 1..Len(Ts) : Ts[i].triple = s ELSE 0
RECURSIVE Bisect(_, _, _, _)
Bisect(Ts, s, lo, hi) ==
  IF lo > hi THEN 0
  ELSE LET mid == (lo + hi) \div 2
           c == Cmp(Ts[mid].triple, s)
       IN IF c = 1 THEN mid
          ELSE IF c = 0 THEN Bisect(Ts, s, mid + 1, hi) ELSE Bisect(Ts, s, lo, mid - 1)

Sorted(Ts) == \A i \in 1..Len(Ts) - 1 : Less(Ts[i].triple, Ts[i + 1].triple)

Underscored(s) == [i \in 1..Len(s) |-> IF s[i] = 45 THEN 95 ELSE s[i]] \o <<>>
=============================================================================
