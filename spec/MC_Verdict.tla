------------------------------ MODULE MC_Verdict ----------------------------
(* Direction A for verdicts: expressions built up from a pool of leaves,    *)
(* each kept together with the set of targets it is true for.               *)
EXTENDS CfgVerdict

CONSTANTS MaxSteps
ASSUME TLCSet(8, JsonDeserialize(IOEnv.POOL))
Pool == TLCGet(8).leaves      \* [text, leaf]
On == ElemsOf(TLCGet(8).on)

VARIABLES stack, steps        \* stack of [text, set]
Init == stack = <<>> /\ steps = 0

Item(i) == LET q == Pool[i] IN [text |-> q.text, set |-> LeafSet(q.leaf, On)]
Push == \E i \in 1..Len(Pool) : stack' = Append(stack, Item(i))
Top_ == stack[Len(stack)]
Below(n) == SubSeq(stack, 1, Len(stack) - n)
Neg == /\ stack # <<>>
       /\ stack' = Append(Below(1), [text |-> W_not \o <<40>> \o Top_.text \o <<41>>, set |-> All \ Top_.set])
RECURSIVE Args(_, _)
Args(s, i) == IF i > Len(s) THEN <<>> ELSE (IF i > 1 THEN <<44, 32>> ELSE <<>>) \o s[i].text \o Args(s, i + 1)
Last(n) == SubSeq(stack, Len(stack) - n + 1, Len(stack))
Inter(s) == {t \in All : \A i \in 1..Len(s) : t \in s[i].set}
Join(s) == {t \in All : \E i \in 1..Len(s) : t \in s[i].set}
Conj == \E n \in 0..Len(stack) :
          stack' = Append(Below(n), [text |-> W_all \o <<40>> \o Args(Last(n), 1) \o <<41>>, set |-> Inter(Last(n))])
Disj == \E n \in 0..Len(stack) :
          stack' = Append(Below(n), [text |-> W_any \o <<40>> \o Args(Last(n), 1) \o (IF n > 1 THEN <<44>> ELSE <<>>) \o <<41>>,
                                     set |-> Join(Last(n))])
Next == steps < MaxSteps /\ steps' = steps + 1 /\ Len(stack) <= MaxSteps - steps /\ (Push \/ Neg \/ Conj \/ Disj)
Spec == Init /\ [][Next]_<<stack, steps>>

Ready == Len(stack) = 1
Emit == Ready => PrintT("@" \o ToJson([text |-> Top_.text, on |-> Top_.set]))
(* Reading the text back gives the set that was built. *)
Composes == Ready => Verdict(Top_.text, On) = <<Top_.set>>
=============================================================================
