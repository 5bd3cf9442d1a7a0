------------------------------ MODULE MC_Chars ------------------------------
(* Every Unicode scalar value between, before and inside other characters:  *)
(* the shape of the token stream (kinds, byte ranges, error) of three short *)
(* texts around it.  One state per block of 256 values; a block is emitted  *)
(* as the list of its distinct shapes in runs <<first, last, shape>>.       *)
EXTENDS CfgLexer, Integers, Json, SequencesExt

CONSTANTS LastBlock    \* block b: values 256*b .. 256*b+255
VARIABLES blk

Init == blk \in -64 .. -1       \* one seed per residue, so that workers share the blocks
Next == blk < 0 /\ blk' \in {b \in 0..LastBlock : b % 64 = 0 - blk - 1}
Spec == Init /\ [][Next]_blk

Shape(t) ==
  LET l == LexAll(t) IN
  <<[i \in 1..Len(l.toks) |-> <<l.toks[i].k, l.toks[i].s, l.toks[i].e>>] \o <<>>,
    [i \in 1..Len(l.err) |-> <<l.err[i].r, l.err[i].s, l.err[i].e>>] \o <<>>>>
Shapes(c) == <<Shape(<<97, c, 98>>), Shape(<<c, 57, 97>>), Shape(<<34, c, 34, c, 40>>)>>

Surrogate(c) == c \in 55296..57343
Values == {c \in 256 * blk .. 256 * blk + 255 : ~Surrogate(c)}
Grow(acc, c) ==
  LET s == Shapes(c) IN
  IF acc # <<>> /\ acc[Len(acc)][3] = s /\ acc[Len(acc)][2] = c - 1
  THEN [acc EXCEPT ![Len(acc)] = <<@[1], c, s>>]
  ELSE Append(acc, <<c, c, s>>)
Emit == blk >= 0 =>
  PrintT("@" \o ToJson([b |-> blk, runs |-> FoldLeft(Grow, <<>>, SetToSortSeq(Values, <))]))
TilesAll == blk >= 0 => \A c \in Values :
  /\ Tiles(<<97, c, 98>>, LexAll(<<97, c, 98>>))
  /\ Tiles(<<34, c, 34, c, 40>>, LexAll(<<34, c, 34, c, 40>>))
=============================================================================
