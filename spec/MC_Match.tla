------------------------------ MODULE MC_Match ------------------------------
(* Direction A for matching: target descriptions in the full cross product  *)
(* of field values (present or absent), each with the predicates of a fixed *)
(* list that it must match.                                                 *)
EXTENDS CfgTarget, Json, TLC, IOUtils

ASSUME TLCSet(8, JsonDeserialize(IOEnv.DOMAIN))
Dom == TLCGet(8)      \* [os, abi, env, vendor, arch, fam, width, endian, atomics, panic, preds]

VARIABLES os, abi, env, vendor, rest
vars == <<os, abi, env, vendor, rest>>
NoRest == [arch |-> <<>>, fam |-> <<>>, width |-> <<>>, endian |-> <<>>, atomics |-> <<>>, panic |-> <<>>]

Init == /\ os \in ElemsOf(Dom.os) /\ abi \in ElemsOf(Dom.abi) /\ env \in ElemsOf(Dom.env)
        /\ vendor \in ElemsOf(Dom.vendor) /\ rest = NoRest
Next == /\ rest = NoRest
        /\ \E a \in ElemsOf(Dom.arch), f \in ElemsOf(Dom.fam), w \in ElemsOf(Dom.width),
              e \in ElemsOf(Dom.endian), x \in ElemsOf(Dom.atomics), p \in ElemsOf(Dom.panic) :
             rest' = [arch |-> a, fam |-> f, width |-> w, endian |-> e, atomics |-> x, panic |-> p]
        /\ UNCHANGED <<os, abi, env, vendor>>
Spec == Init /\ [][Next]_vars

T == [triple |-> <<116>>, os |-> os, abi |-> abi, env |-> env, vendor |-> vendor, arch |-> rest.arch,
      fam |-> rest.fam, width |-> rest.width, endian |-> rest.endian, atomics |-> rest.atomics,
      panic |-> rest.panic]
Emit ==
  rest # NoRest =>
    LET S == CfgSet(T) IN
    PrintT("@" \o ToJson([t |-> T, m |-> SelectSeq([i \in 1..Len(Dom.preds) |-> i],
                                                   LAMBDA i : <<Dom.preds[i][1], Dom.preds[i][2]>> \in S)]))
(* For a single-valued key exactly one value matches. *)
OneValue ==
  rest # NoRest =>
    LET S == CfgSet(T) IN \A k \in SingleValued : Cardinality({p \in S : p[1] = k}) = 1
=============================================================================
