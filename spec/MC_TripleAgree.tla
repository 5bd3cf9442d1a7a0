--------------------------- MODULE MC_TripleAgree ---------------------------
(* The two models of matching agree: for every target of the release whose  *)
(* triple the triple library understands, the mapping of CfgTriple gives the*)
(* answer that CfgTarget gives for the facts of the target.                 *)
EXTENDS CfgTarget, Json, IOUtils
C == INSTANCE CfgTriple

ASSUME TLCSet(7, JsonDeserialize(IOEnv.TARGETS))
ASSUME TLCSet(8, JsonDeserialize(IOEnv.DOMAIN))   \* [triples: per target <<>> or <<T>>, preds]
Ts == TLCGet(7).targets
Dom == TLCGet(8)

VARIABLE i
Init == i \in 1..Len(Ts)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i

Shared == {"arch", "endian", "width", "env", "family", "os", "vendor"}
Emit ==
  LET S == CfgSet(Ts[i])
      t == Dom.triples[i]
      ps == Dom.preds
      facts(j) == ps[j].k \in Shared /\ <<ps[j].k, ps[j].c>> \in S
  IN PrintT("@" \o ToJson(
       [i |-> i, parsed |-> Len(t),
        m |-> SelectSeq([j \in 1..Len(ps) |-> j], facts),
        differ |-> IF t = <<>> THEN <<>>
                   ELSE SelectSeq([j \in 1..Len(ps) |-> j], LAMBDA j : C!Holds(t[1], ps[j]) # facts(j))]))
=============================================================================
