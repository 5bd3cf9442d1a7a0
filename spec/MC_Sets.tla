------------------------------- MODULE MC_Sets ------------------------------
(* Sets of families and of atomic widths built from elements in any order.  *)
EXTENDS CfgTarget, Json, TLC, SequencesExt

CONSTANTS Kind, MaxLen
VARIABLES a, b, pc      \* two collections, grown element by element
vars == <<a, b, pc>>

FamilyElems == {W_unix, W_windows, W_wasm, <<85, 110, 105, 120>>, <<>>, <<117, 110, 105, 233>>}
AtomicElems == {<<56>>, <<49, 54>>, <<49, 50, 56>>, <<48>>, W_ptr}
Elems == IF Kind = "family" THEN FamilyElems ELSE AtomicElems

Init == a = <<>> /\ b = <<>> /\ pc = "a"
AddA == pc = "a" /\ Len(a) < MaxLen /\ (\E x \in Elems : a' = Append(a, x)) /\ UNCHANGED <<b, pc>>
Switch == pc = "a" /\ pc' = "b" /\ UNCHANGED <<a, b>>
AddB == pc = "b" /\ Len(b) < MaxLen /\ (\E x \in Elems : b' = Append(b, x)) /\ UNCHANGED <<a, pc>>
Next == AddA \/ Switch \/ AddB
Spec == Init /\ [][Next]_vars

(* atomic widths are ordered as numbers, the pointer width last *)
ALess(x, y) == IF x = W_ptr THEN FALSE ELSE IF y = W_ptr THEN TRUE
               ELSE ParseUint(x, 65535)[1] < ParseUint(y, 65535)[1]
ELess(x, y) == IF Kind = "family" THEN Less(x, y) ELSE ALess(x, y)

Canon(s) == SortSeq(s, ELess)
RECURSIVE CmpSeq(_, _, _)
CmpSeq(x, y, i) ==
  IF i > Len(x) /\ i > Len(y) THEN 1
  ELSE IF i > Len(x) THEN 0 ELSE IF i > Len(y) THEN 2
  ELSE IF x[i] = y[i] THEN CmpSeq(x, y, i + 1)
  ELSE IF ELess(x[i], y[i]) THEN 0 ELSE 2
RECURSIVE Joined(_, _)
Joined(s, i) == IF i > Len(s) THEN <<>> ELSE (IF i > 1 THEN <<44, 32>> ELSE <<>>) \o s[i] \o Joined(s, i + 1)

SameElems(p, s) == \A x \in ElemsOf(s) \cup ElemsOf(p) :
                     Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({i \in 1..Len(p) : p[i] = x})
Probes == SetToSortSeq(Elems, ELess)
Emit ==
  pc = "b" =>
    LET x == Canon(a)
        y == Canon(b)
    IN PrintT("@" \o ToJson([k |-> Kind, a |-> a, b |-> b, probes |-> Probes, items |-> x,
          disp |-> <<123>> \o Joined(x, 1) \o <<125>>,
          has |-> [i \in 1..Len(Probes) |-> IF Probes[i] \in ElemsOf(a) THEN 1 ELSE 0],
          eq |-> IF x = y THEN 1 ELSE 0, cmp |-> CmpSeq(x, y, 1)]))
(* Equal exactly when they hold the same elements equally often. *)
Extensional == pc = "b" => (Canon(a) = Canon(b)) = (Len(a) = Len(b) /\ SameElems(a, b))
=============================================================================
