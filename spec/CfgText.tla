------------------------------ MODULE CfgText ------------------------------
(* Texts.  A text is a sequence of Unicode scalar values (code points);     *)
(* positions that are reported to users are byte offsets in its UTF-8 form. *)
EXTENDS Naturals, Sequences, TLC, CfgWords

Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

(* Unicode White_Space. *)
IsWs(c) ==
  \/ c \in 9..13 \/ c = 32
  \/ c > 127 /\ \/ c = 133 \/ c = 160 \/ c = 5760 \/ c \in 8192..8202
                \/ c = 8232 \/ c = 8233 \/ c = 8239 \/ c = 8287 \/ c = 12288

IsDigit(c) == c \in 48..57
IsIdStart(c) == c \in 97..122 \/ c \in 65..90 \/ c = 95
IsIdRest(c) == IsIdStart(c) \/ IsDigit(c)

RECURSIVE ByteLenFrom(_, _)
ByteLenFrom(t, i) == IF i > Len(t) THEN 0 ELSE Utf8Len(t[i]) + ByteLenFrom(t, i + 1)
ByteLen(t) == ByteLenFrom(t, 1)

(* Is byte offset b of text t a character boundary (0 and the end included)? *)
RECURSIVE BoundaryFrom(_, _, _)
BoundaryFrom(t, i, b) ==
  IF b <= 0 THEN b = 0 ELSE IF i > Len(t) THEN FALSE ELSE BoundaryFrom(t, i + 1, b - Utf8Len(t[i]))
IsBoundary(t, b) == BoundaryFrom(t, 1, b)

HasPrefix(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p

(* The wrapper: exactly a leading "cfg(" together with a trailing ")".      *)
Strip(t) ==
  IF HasPrefix(t, W_cfg) /\ t[Len(t)] = 41 THEN SubSeq(t, 5, Len(t) - 1) ELSE t

(* Unsigned decimal numbers as the standard library reads them: an optional *)
(* plus sign, at least one digit, leading zeros allowed, at most max.       *)
(* Result: <<n>> or <<>>.                                                   *)
RECURSIVE Digits(_, _, _, _)
Digits(t, i, acc, max) ==
  IF i > Len(t) THEN <<acc>>
  ELSE IF ~IsDigit(t[i]) THEN <<>>
  ELSE LET n == acc * 10 + (t[i] - 48) IN IF n > max THEN <<>> ELSE Digits(t, i + 1, n, max)
ParseUint(t, max) ==
  LET i == IF Len(t) >= 1 /\ t[1] = 43 THEN 2 ELSE 1
  IN IF i > Len(t) THEN <<>> ELSE Digits(t, i, 0, max)

RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
=============================================================================
