------------------------------- MODULE MC_Same ------------------------------
(* The same leaf more than once: every sentence up to a bound whose leaves  *)
(* are one leaf, or two leaves in every arrangement, of every kind.  Each   *)
(* occurrence counts.                                                       *)
EXTENDS MC_Tokens, CfgLeafData

CONSTANTS Two        \* also with two different leaves

Holes == SelectSeq([i \in 1..Len(syms) |-> i], LAMBDA i : syms[i] = "key")

(* every hole 1, or every arrangement of 1 and 2 that begins with 1 *)
Colourings == LET n == Len(Holes) IN
  {[i \in 1..n |-> 1]} \cup (IF Two THEN {c \in [1..n -> {1, 2}] : c[1] = 1 /\ \E i \in 1..n : c[i] = 2} ELSE {})

RECURSIVE Fill(_, _, _, _)
Fill(i, h, c, p) ==      \* p: the two leaves' texts
  IF i > Len(syms) THEN <<>>
  ELSE LET word == i > 1 /\ WordSym(syms[i - 1]) /\ WordSym(syms[i])
       IN (IF word THEN <<32>> ELSE <<>>)
          \o (IF syms[i] = "key" THEN p[c[h]] \o Fill(i + 1, h + 1, c, p) ELSE Body(syms[i]) \o Fill(i + 1, h, c, p))

Pairs == {<<SameLeaves[a], SameLeaves[a]>> : a \in 1..Len(SameLeaves)}
         \cup (IF Two THEN {<<SameLeaves[a], SameLeaves[1 + ((a * 7 + b) % Len(SameLeaves))]>> : a \in 1..Len(SameLeaves), b \in 0..2} ELSE {})
Good == syms # <<>> /\ Outcome.st = "ok" /\ Len(Holes) >= 2
Texts == {Fill(1, 1, c, p) : c \in Colourings, p \in Pairs}
Verdict(t) == LET o == ParseText(t) IN [i |-> t, ok |-> 1, l |-> Leaves(o.queue), v |-> EvalQueue(o.queue)[1]]
EmitSame == Good => \A t \in Texts : PrintT("@" \o ToJson(Verdict(t)))
(* Each occurrence is there, and the meaning is the grammar's. *)
EachCounts ==
  Good => \A t \in Texts :
    LET o == ParseText(t)
        g == Root(LexAll(t).toks)
    IN /\ o.st = "ok" /\ Len(Leaves(o.queue)) = Len(Holes)
       /\ SameBag(Leaves(o.queue), LeavesOf(g.tree)) /\ EvalQueue(o.queue) = <<Meaning(g.tree)>>
=============================================================================
