------------------------------ MODULE CfgGrammar ----------------------------
(* The language and its meaning, stated without the machine: a recursive    *)
(* grammar over token sequences and a compositional denotation.             *)
(*    root ::= pred [","]                                                   *)
(*    pred ::= key | key "=" val | ("all"|"any") "(" [list] ")"             *)
(*           | "not" "(" pred [","] ")"                                     *)
(*    list ::= pred ("," pred)* [","]                                       *)
(* Tree: <<"p", leaf>> or <<fn, <<operand trees>>>>.                        *)
EXTENDS CfgEval

NoTree == [ok |-> FALSE, tree |-> <<>>, next |-> 0]
Tree(x, n) == [ok |-> TRUE, tree |-> x, next |-> n]

KindAt(T, i) == IF i <= Len(T) THEN T[i].k ELSE "end"
AsKey(tok) == [v |-> tok.v, s |-> tok.s, e |-> tok.e]
AsVal(tok) == [v |-> tok.v, s |-> tok.s + 1, e |-> tok.e - 1]

RECURSIVE Pred(_, _), List(_, _, _)
Pred(T, i) ==
  LET k == KindAt(T, i) IN
  CASE k = "key" /\ KindAt(T, i + 1) # "eq" ->
         LET c == Classify(AsKey(T[i]), <<>>)
         IN IF c.ok THEN Tree(<<"p", c.node.leaf>>, i + 1) ELSE NoTree
    [] k = "key" /\ KindAt(T, i + 1) = "eq" ->
         IF KindAt(T, i + 2) # "val" THEN NoTree
         ELSE LET c == Classify(AsKey(T[i]), <<AsVal(T[i + 2])>>)
              IN IF c.ok THEN Tree(<<"p", c.node.leaf>>, i + 3) ELSE NoTree
    [] k \in {"all", "any", "not"} ->
         IF KindAt(T, i + 1) # "open" THEN NoTree
         ELSE LET l == List(T, i + 2, <<>>)
              IN IF ~l.ok \/ (k = "not" /\ Len(l.tree) # 1) THEN NoTree
                 ELSE Tree(<<k, l.tree>>, l.next)
    [] OTHER -> NoTree

(* operands up to and including the closing parenthesis *)
List(T, i, acc) ==
  IF KindAt(T, i) = "close" THEN Tree(acc, i + 1)
  ELSE LET p == Pred(T, i) IN
       IF ~p.ok THEN NoTree
       ELSE LET acc2 == Append(acc, p.tree) IN
            CASE KindAt(T, p.next) = "close" -> Tree(acc2, p.next + 1)
              [] KindAt(T, p.next) = "comma" -> List(T, p.next + 1, acc2)
              [] OTHER -> NoTree

Root(T) ==
  LET p == Pred(T, 1) IN
  IF p.ok /\ (p.next > Len(T) \/ (KindAt(T, p.next) = "comma" /\ p.next = Len(T))) THEN p ELSE NoTree

InLanguage(T) == Root(T).ok

RECURSIVE Meaning(_), MeanAll(_, _), MeanAny(_, _), LeavesOf(_), LeavesList(_, _)
Meaning(x) ==
  CASE x[1] = "p" -> LeafVal(x[2])
    [] x[1] = "not" -> VNot(Meaning(x[2][1]))
    [] x[1] = "all" -> MeanAll(x[2], 1)
    [] x[1] = "any" -> MeanAny(x[2], 1)
MeanAll(xs, i) == IF i > Len(xs) THEN VTop ELSE VAnd(Meaning(xs[i]), MeanAll(xs, i + 1))
MeanAny(xs, i) == IF i > Len(xs) THEN VBot ELSE VOr(Meaning(xs[i]), MeanAny(xs, i + 1))

(* leaves in source order *)
LeavesOf(x) == IF x[1] = "p" THEN <<x[2]>> ELSE LeavesList(x[2], 1)
LeavesList(xs, i) == IF i > Len(xs) THEN <<>> ELSE LeavesOf(xs[i]) \o LeavesList(xs, i + 1)

Count(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])

(* The grammar over a text. *)
TextInLanguage(text) == LET l == LexAll(Strip(text)) IN l.err = <<>> /\ InLanguage(l.toks)
=============================================================================
