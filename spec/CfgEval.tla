------------------------------- MODULE CfgEval ------------------------------
(* Evaluation of a postfix program over a logic.                            *)
(*                                                                          *)
(* One value carries five logics at once, each applied pointwise:           *)
(*   b        30 independent two-valued assignments (bits of a number)      *)
(*   kt, kf   30 strong Kleene assignments: bit in kt = true, in kf = false,*)
(*            in neither = unknown                                          *)
(*   bt, bf   30 Belnap (four-valued) assignments: kt/kf not exclusive      *)
(*   g1, g2   the field Z/P, with combinators that are commutative and      *)
(*            associative with units 1 and 0 but not idempotent, so an      *)
(*            operand used twice or dropped changes the value:              *)
(*            g1: and = x*y, or = x+y, not = 7x+3.  Here nothing relates    *)
(*                the three: negation is no involution and does not turn    *)
(*                one unit or combinator into the other.                    *)
(*            g2: and = x*y, or = x+y-xy, not = 1-x (de Morgan).            *)
EXTENDS CfgParser, Integers, Bitwise

P == 32749
Mask == 1073741823            \* 2^30 - 1
BAnd(x, y) == x & y
BOr(x, y) == x + y - (x & y)
BNot(x) == Mask - x

GAnd(x, y) == (x * y) % P
GOr(x, y) == (x + y + (P - 1) * ((x * y) % P)) % P
GNot(x) == (1 + (P - x)) % P
FOr(x, y) == (x + y) % P
FNot(x) == (7 * x + 3) % P

VTop == [b |-> Mask, kt |-> Mask, kf |-> 0, bt |-> Mask, bf |-> 0, g1 |-> 1, g2 |-> 1]
VBot == [b |-> 0, kt |-> 0, kf |-> Mask, bt |-> 0, bf |-> Mask, g1 |-> 0, g2 |-> 0]
VAnd(x, y) == [b |-> BAnd(x.b, y.b), kt |-> BAnd(x.kt, y.kt), kf |-> BOr(x.kf, y.kf),
               bt |-> BAnd(x.bt, y.bt), bf |-> BOr(x.bf, y.bf),
               g1 |-> GAnd(x.g1, y.g1), g2 |-> GAnd(x.g2, y.g2)]
VOr(x, y) == [b |-> BOr(x.b, y.b), kt |-> BOr(x.kt, y.kt), kf |-> BAnd(x.kf, y.kf),
              bt |-> BOr(x.bt, y.bt), bf |-> BAnd(x.bf, y.bf),
              g1 |-> FOr(x.g1, y.g1), g2 |-> GOr(x.g2, y.g2)]
VNot(x) == [b |-> BNot(x.b), kt |-> x.kf, kf |-> x.kt, bt |-> x.bf, bf |-> x.bt,
            g1 |-> FNot(x.g1), g2 |-> GNot(x.g2)]

---------------------------------------------------------------------------
(* The value the observer gives to a leaf: a function of what it is shown.  *)
KindCode ==
  [flag |-> 1, kv |-> 2, feature |-> 3, tfeature |-> 4, test |-> 5, debug |-> 6, procmacro |-> 7,
   abi |-> 11, arch |-> 12, endian |-> 13, env |-> 14, family |-> 15, atomic |-> 16, os |-> 17,
   panic |-> 18, width |-> 19, vendor |-> 20]

RECURSIVE HashSeq(_, _, _, _)
HashSeq(s, i, h, m) == IF i > Len(s) THEN h ELSE HashSeq(s, i + 1, (h * m + s[i] + 1) % P, m)
LeafHash(leaf, seed, m) ==
  HashSeq(leaf[3], 1,
     (HashSeq(leaf[2], 1, (seed * m + KindCode[leaf[1]]) % P, m) * m + 7) % P, m)

(* Leaves named a..d (a..c) run through all assignments in the low bits:    *)
(* bit i of column j is (i \div 2^j) % 2; trit i of column j (i \div 3^j) % 3. *)
ExactBool == <<43690, 52428, 61680, 65280>>
ExactKt == <<76695844, 117670336, 133955584>>
ExactKf == <<38347922, 14708792, 261632>>
Low16 == 65535
High12 == 1073479680          \* 2^30 - 2^18
Low27 == 134217727

IsLetter(leaf) == leaf[1] = "flag" /\ Len(leaf[2]) = 1 /\ leaf[2][1] \in 97..100
LeafVal(leaf) ==
  LET h1 == LeafHash(leaf, 1, 257)
      h2 == LeafHash(leaf, 2, 263)
      h3 == LeafHash(leaf, 3, 269)
      h4 == LeafHash(leaf, 4, 271)
      X == (h1 * 32768) + h2          \* two 30-bit columns
      Y == (h3 * 32768) + h4
      j == IF IsLetter(leaf) THEN leaf[2][1] - 96 ELSE 9
      kt == IF j <= 3 THEN ExactKt[j] ELSE BAnd(BAnd(X, Y), Low27)
      kf == IF j <= 3 THEN ExactKf[j] ELSE BAnd(X - BAnd(X, Y), Low27)
  IN [b |-> (IF j <= 4 THEN ExactBool[j] ELSE BAnd(X, Low16)) + 65536 + BAnd(Y, High12),
      kt |-> kt + 268435456, kf |-> kf + 536870912,
      bt |-> X, bf |-> Y, g1 |-> h1, g2 |-> h3]

---------------------------------------------------------------------------
(* The stack machine: one step per node. *)
RECURSIVE FoldN(_, _, _, _)
FoldN(Op(_, _), unit, st, n) ==     \* the last n elements of st combined
  IF n = 0 THEN unit ELSE Op(FoldN(Op, unit, st, n - 1), st[Len(st) - n + 1])

EStep(st, node) ==
  CASE node.t = "p" -> Append(st, LeafVal(node.leaf))
    [] node.t = "all" -> Append(SubSeq(st, 1, Len(st) - node.n), FoldN(VAnd, VTop, st, node.n))
    [] node.t = "any" -> Append(SubSeq(st, 1, Len(st) - node.n), FoldN(VOr, VBot, st, node.n))
    [] node.t = "not" -> Append(SubSeq(st, 1, Len(st) - 1), VNot(st[Len(st)]))

RECURSIVE RunFrom(_, _, _)
RunFrom(q, i, st) == IF i > Len(q) THEN st ELSE RunFrom(q, i + 1, EStep(st, q[i]))
EvalQueue(q) == RunFrom(q, 1, <<>>)   \* one element for a well-formed program

(* A program is well formed if the stack never underflows and ends with one. *)
RECURSIVE Depth(_, _, _)
Depth(q, i, d) ==
  IF i > Len(q) THEN d
  ELSE IF q[i].t = "p" THEN Depth(q, i + 1, d + 1)
  ELSE IF d < q[i].n THEN 0 - 1 ELSE Depth(q, i + 1, d - q[i].n + 1)
WellFormed(q) == Depth(q, 1, 0) = 1
=============================================================================
