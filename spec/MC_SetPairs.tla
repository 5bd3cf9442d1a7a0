----------------------------- MODULE MC_SetPairs ----------------------------
(* Given collections, of any size: what the sets built from them are.  The  *)
(* sets themselves, their order and how they are shown are MC_Sets'.        *)
EXTENDS MC_Sets, IOUtils
ASSUME TLCSet(7, JsonDeserialize(IOEnv.DOMAIN))      \* pairs of collections; probes
D == TLCGet(7)
VARIABLE n
PInit == n = 0 /\ a = <<>> /\ b = <<>> /\ pc = "a"
PNext == /\ n = 0 /\ n' \in 1..Len(D.pairs) /\ a' = D.pairs[n'][1] /\ b' = D.pairs[n'][2] /\ pc' = "b"
PSpec == PInit /\ [][PNext]_<<vars, n>>
PEmit ==
  pc = "b" =>
    LET x == TLCEval(Canon(a))
        y == TLCEval(Canon(b))
        P == D.probes
        E == TLCEval(ElemsOf(a))
    IN /\ PrintT("@" \o ToJson([k |-> Kind, a |-> a, b |-> b, probes |-> P, items |-> x,
             disp |-> <<123>> \o Joined(x, 1) \o <<125>>, has |-> [i \in 1..Len(P) |-> IF P[i] \in E THEN 1 ELSE 0],
             eq |-> IF x = y THEN 1 ELSE 0, cmp |-> CmpSeq(x, y, 1)]))
       /\ (x = y) = (Len(a) = Len(b) /\ SameElems(a, b))
=============================================================================
