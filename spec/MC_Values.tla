------------------------------ MODULE MC_Values -----------------------------
(* Field values as texts, and the texts that are an endianness or an atomic *)
(* width.                                                                   *)
EXTENDS CfgTarget, CfgLeafData, Json, TLC

VARIABLES a, b      \* b = <<>>: not chosen yet; otherwise <<text>>
Init == a \in Values /\ b = <<>>
Next == b = <<>> /\ (\E w \in Values : b' = <<w>>) /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>

Flip(c) == 2 - c
AtomicOf(t) == LET n == ParseUint(t, 65535) IN IF n # <<>> THEN <<Decimal(n[1])>> ELSE IF t = W_ptr THEN <<W_ptr>> ELSE <<>>
Emit ==
  PrintT("@" \o ToJson(
    IF b = <<>>
    THEN [a |-> <<a>>, endian |-> IF a \in {W_big, W_little} THEN <<a>> ELSE <<>>, atomic |-> AtomicOf(a),
          err |-> IF AtomicOf(a) = <<>> THEN <<Msg_InvalidHasAtomic \o W_found \o a>> ELSE <<>>]
    ELSE [a |-> <<a>>, b |-> b, eq |-> IF a = b[1] THEN 1 ELSE 0, cmp |-> Cmp(a, b[1])]))
(* Laws of the order. *)
Order == b # <<>> =>
  /\ Cmp(a, b[1]) = Flip(Cmp(b[1], a))
  /\ (Cmp(a, b[1]) = 1) = (a = b[1])
(* What is printed is read back as itself. *)
RoundTrip == AtomicOf(a) # <<>> => AtomicOf(AtomicOf(a)[1]) = AtomicOf(a)
=============================================================================
