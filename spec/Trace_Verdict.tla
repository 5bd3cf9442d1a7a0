---------------------------- MODULE Trace_Verdict ---------------------------
(* Direction B for verdicts: what the library said about a text for every   *)
(* built-in target, against its meaning.                                    *)
EXTENDS CfgVerdict

ASSUME TLCSet(8, ndJsonDeserialize(IOEnv.TRACE))    \* [text, set: leaves, ok, on]
Trace == TLCGet(8)
Block == 32

VARIABLES block, c
Init == block \in 0..((Len(Trace) - 1) \div Block) /\ c = 0
Next == /\ c = 0
        /\ c' \in {j \in (block * Block + 1)..(block * Block + Block) : j <= Len(Trace)}
        /\ UNCHANGED block
Spec == Init /\ [][Next]_<<block, c>>

Report ==
  c > 0 =>
    LET w == Trace[c]
        m == Verdict(w.text, ElemsOf(w.set))
    IN IF m = <<>> THEN PrintT("@" \o ToJson([c |-> c, acc |-> 0, good |-> IF w.ok = 0 THEN 1 ELSE 0, on |-> 0, wrong |-> <<>>]))
       ELSE LET got == ElemsOf(w.on)
                d == (got \ m[1]) \cup (m[1] \ got)
            IN PrintT("@" \o ToJson([c |-> c, acc |-> 1, good |-> IF w.ok = 1 /\ d = {} THEN 1 ELSE 0,
                                     on |-> Cardinality(m[1]), wrong |-> d]))
=============================================================================
