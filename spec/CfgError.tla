------------------------------ MODULE CfgError ------------------------------
(* Rendering of errors. *)
EXTENDS CfgParser

RECURSIVE JoinExp(_, _)
JoinExp(x, i) ==
  IF i > Len(x) THEN <<>>
  ELSE (IF i > 1 THEN <<44, 32>> ELSE <<>>) \o <<96>> \o TermText(x[i]) \o <<96>> \o JoinExp(x, i + 1)

Message(err) ==
  CASE err.r = "UnclosedParens" -> Msg_UnclosedParens
    [] err.r = "UnopenedParens" -> Msg_UnopenedParens
    [] err.r = "UnclosedQuotes" -> Msg_UnclosedQuotes
    [] err.r = "Empty" -> Msg_Empty
    [] err.r = "InvalidInteger" -> Msg_InvalidInteger
    [] err.r = "MultipleRootPredicates" -> Msg_MultipleRoot
    [] err.r = "InvalidHasAtomic" -> Msg_InvalidHasAtomic
    [] err.r = "InvalidCharacters" -> Msg_InvalidCharacters     \* these three are for callers only
    [] err.r = "UnopenedQuotes" -> Msg_UnopenedQuotes
    [] err.r = "UnknownBuiltin" -> Msg_UnknownBuiltin
    [] err.r = "InvalidNot" -> Msg_InvalidNot \o Decimal(err.n)
    [] err.r = "Unexpected" ->
         IF Len(err.x) > 1 THEN Msg_OneOf \o JoinExp(err.x, 1) \o Msg_Here
         ELSE IF Len(err.x) = 1 THEN Msg_A \o JoinExp(err.x, 1) \o Msg_Here
         ELSE Msg_NotExpected

(* What the error says of itself in short (the description of the standard   *)
(* error trait): the reason, without what is expected and without counts.    *)
Description(err) ==
  CASE err.r = "Unexpected" -> Msg_UnexpectedTerm
    [] err.r = "InvalidNot" -> Msg_NotTakes
    [] OTHER -> Message(err)

Rep(c, n) == [i \in 1..n |-> c] \o <<>>
Marker(err) ==
  IF err.r \in {"UnclosedParens", "UnclosedQuotes"} THEN <<45>>
  ELSE IF err.r \in {"UnopenedParens", "UnopenedQuotes"} THEN <<94>>
  ELSE Rep(94, err.e - err.s)
Rendered(text, err) ==
  text \o <<10>> \o Rep(32, err.s) \o Marker(err) \o <<32>> \o Message(err)

(* Every span is usable. *)
SpanOk(text, err) ==
  err.s <= err.e /\ err.e <= ByteLen(text) /\ IsBoundary(text, err.s) /\ IsBoundary(text, err.e)
=============================================================================
