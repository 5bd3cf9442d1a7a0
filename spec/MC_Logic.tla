------------------------------ MODULE MC_Logic ------------------------------
(* The two logics the library brings, called directly: the operations on    *)
(* every pair of values.  A value is the pair <<true in it, false in it>> of*)
(* the one-bit columns of CfgEval; unknown is neither.                      *)
EXTENDS CfgEval, Json, TLC
VARIABLES x, y
Truth == {"t", "f", "u"}
Val(a) == [VTop EXCEPT !.kt = IF a = "t" THEN 1 ELSE 0, !.kf = IF a = "f" THEN 1 ELSE 0]
Name(v) == IF v.kt = 1 THEN "t" ELSE IF v.kf = 1 THEN "f" ELSE "u"
Cut(v) == [v EXCEPT !.kt = v.kt % 2, !.kf = v.kf % 2]
Op(a, b) ==
  [and |-> Name(VAnd(Val(a), Val(b))), or |-> Name(VOr(Val(a), Val(b))), not |-> Name(VNot(Val(a))),
   top |-> Name(Cut(VTop)), bottom |-> Name(Cut(VBot))]
Init == x = "t" /\ y = "t"
Next == x' \in Truth /\ y' \in Truth
Spec == Init /\ [][Next]_<<x, y>>
Emit == PrintT("@" \o ToJson([x |-> x, y |-> y, o |-> Op(x, y)]))

Known(a) == a # "u"
Leq(a, b) == a = b \/ a = "u"                    \* less is known
Neg(a) == Op(a, a).not
(* commutative, associative, with units, de Morgan, and monotone in what is known *)
Lawful ==
  /\ Op(x, y).and = Op(y, x).and /\ Op(x, y).or = Op(y, x).or
  /\ Op(x, y).top = "t" /\ Op(x, y).bottom = "f" /\ Op(x, "t").and = x /\ Op(x, "f").or = x
  /\ \A z \in Truth : Op(Op(x, y).and, z).and = Op(x, Op(y, z).and).and /\ Op(Op(x, y).or, z).or = Op(x, Op(y, z).or).or
  /\ Neg(Neg(x)) = x /\ Neg(Op(x, y).and) = Op(Neg(x), Neg(y)).or
  /\ \A a \in Truth, b \in Truth : Leq(x, a) /\ Leq(y, b) => Leq(Op(x, y).and, Op(a, b).and) /\ Leq(Op(x, y).or, Op(a, b).or)
  /\ Known(x) /\ Known(y) => Known(Op(x, y).and) /\ Known(Op(x, y).or) /\ Known(Neg(x))
=============================================================================
