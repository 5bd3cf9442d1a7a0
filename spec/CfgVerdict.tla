------------------------------ MODULE CfgVerdict ----------------------------
(* The end-to-end meaning of a cfg text: the set of targets of the release  *)
(* (by number) for which it is true, given which other settings are on.     *)
(* A leaf about the target holds for the targets for which the compiler     *)
(* sets that pair; any other leaf holds for all of them or none.            *)
EXTENDS CfgGrammar, CfgTarget, Json, IOUtils

ASSUME TLCSet(7, JsonDeserialize(IOEnv.TARGETS))
Ts == TLCGet(7).targets
ASSUME TLCSet(9, LET ts == Ts IN TLCEval([i \in 1..Len(ts) |-> CfgSet(ts[i])]))
(* For every pair set for some target: the targets it is set for. *)
ASSUME TLCSet(10, LET sets == TLCGet(9)
                      n == Len(sets)
                  IN TLCEval([p \in UNION {sets[i] : i \in 1..n} |-> {i \in 1..n : p \in sets[i]}]))
All == 1..Len(Ts)

TargetKinds == {"abi", "arch", "endian", "env", "family", "atomic", "os", "panic", "width", "vendor"}
(* the caller's settings are a set of leaves *)
LeafSet(leaf, On) ==
  IF leaf[1] \in TargetKinds
  THEN LET m == TLCGet(10)
           p == <<leaf[1], leaf[3]>>
       IN IF p \in DOMAIN m THEN m[p] ELSE {}
  ELSE IF leaf \in On THEN All ELSE {}

RECURSIVE TreeSet(_, _), TreesAll(_, _, _), TreesAny(_, _, _)
TreeSet(tr, On) ==
  IF tr[1] = "p" THEN LeafSet(tr[2], On)
  ELSE IF tr[1] = "all" THEN TreesAll(tr[2], 1, On)
  ELSE IF tr[1] = "any" THEN TreesAny(tr[2], 1, On)
  ELSE All \ TreeSet(tr[2][1], On)
TreesAll(s, i, On) == IF i > Len(s) THEN All ELSE TreeSet(s[i], On) \cap TreesAll(s, i + 1, On)
TreesAny(s, i, On) == IF i > Len(s) THEN {} ELSE TreeSet(s[i], On) \cup TreesAny(s, i + 1, On)
Verdict(text, On) ==     \* <<set>>, or <<>> for a text that is not accepted
  LET l == LexAll(Strip(text))
      g == IF l.err = <<>> THEN Root(l.toks) ELSE NoTree
  IN IF g.ok THEN <<TreeSet(g.tree, On)>> ELSE <<>>
=============================================================================
