------------------------------ MODULE MC_Quoted -----------------------------
(* What is quoted is kept: every pair of characters that might mean         *)
(* something to somebody, alone, first, last and in the middle of a value,  *)
(* for every key that takes any value.  One text per key and first          *)
(* character.                                                               *)
EXTENDS CfgGrammar, CfgLeafData, Json, TLC

VARIABLES key, c, form
vars == <<key, c, form>>
Init == key \in 1..Len(TextKeys) /\ c = 0 /\ form = 0
Next == c = 0 /\ (\E i \in 1..Len(Marks) : c' = Marks[i]) /\ (\E m \in 1..4 : form' = m) /\ UNCHANGED key
Spec == Init /\ [][Next]_vars

Value(d) == CASE form = 1 -> <<c, d>> [] form = 2 -> <<c, d, 97>> [] form = 3 -> <<98, c, d>> [] form = 4 -> <<55, c, d, 122>>
RECURSIVE Body(_, _)
Body(i, acc) == IF i > Len(Marks) THEN acc
                ELSE Body(i + 1, acc \o TextKeys[key] \o <<61, 34>> \o Value(Marks[i]) \o <<34, 44>>)
Text == KwAll \o <<40>> \o Body(1, <<>>) \o <<41>>

(* accepted, each value as written *)
EmitVerbatim ==
  c # 0 => LET t == TLCEval(Text)
               o == TLCEval(ParseText(t))
               l == TLCEval(Leaves(o.queue))
           IN /\ PrintT("@" \o ToJson([i |-> t, ok |-> 1, l |-> l]))
              /\ o.st = "ok" /\ Len(l) = Len(Marks) /\ \A n \in 1..Len(l) : l[n][3] = Value(Marks[n])
=============================================================================
