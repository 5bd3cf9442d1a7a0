----------------------------- MODULE MC_Builtin -----------------------------
(* A list of targets (the recorded compiler release, or made-up ones): for  *)
(* each the predicates of a fixed list that hold.                           *)
EXTENDS CfgTarget, Json, TLC, IOUtils

ASSUME TLCSet(7, JsonDeserialize(IOEnv.TARGETS))
ASSUME TLCSet(8, JsonDeserialize(IOEnv.DOMAIN))
Ts == TLCGet(7).targets
Preds == TLCGet(8).preds
Block == 16

VARIABLES block, i
Init == block \in 0..((Len(Ts) - 1) \div Block) /\ i = 0
Next == /\ i = 0
        /\ i' \in {j \in (block * Block + 1)..(block * Block + Block) : j <= Len(Ts)}
        /\ UNCHANGED block
Spec == Init /\ [][Next]_<<block, i>>

Emit ==
  i > 0 =>
    LET S == CfgSet(Ts[i])
        P == Preds
    IN PrintT("@" \o ToJson([i |-> i, m |-> SelectSeq([j \in 1..Len(P) |-> j], LAMBDA j : <<P[j][1], P[j][2]>> \in S)]))
(* Every value of the release is asked about. *)
Covered == i > 0 => LET P == Preds IN \A p \in CfgSet(Ts[i]) : \E j \in 1..Len(P) : <<P[j][1], P[j][2]>> = p
InOrder == i > 0 /\ i < Len(Ts) => Less(Ts[i].triple, Ts[i + 1].triple)
(* For a single-valued key exactly one value holds. *)
OneValue == i > 0 => LET S == CfgSet(Ts[i]) IN \A k \in SingleValued : Cardinality({p \in S : p[1] = k}) = 1
=============================================================================
