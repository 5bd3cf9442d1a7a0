------------------------------ MODULE MC_Groups -----------------------------
(* Lists next to and inside each other, each as wide as wanted: shapes with *)
(* two lists of 0..Wide leaves, of any functions, and in each list either   *)
(* all leaves different, or all the same but one, so that it decides.       *)
EXTENDS CfgGrammar, Json, TLC

CONSTANTS Wide,       \* leaves in a list
          Shapes      \* which of the shapes
VARIABLES shape, w1, w2, f, look      \* the shape, widths, functions, leaves
vars == <<shape, w1, w2, f, look>>

Fns == {KwAll, KwAny}
Call(fn, inside) == fn \o <<40>> \o inside \o <<41>>
RECURSIVE Run(_, _, _)
Run(n, i, base) ==        \* leaf i, ..., n of a run; base: 0 for the first list
  IF i > n THEN <<>>
  ELSE LET same == <<97 + 2 * base>>
           other == <<98 + 2 * base>>
           leaf == CASE look = "each" -> IF base = 0 THEN <<96 + i>> ELSE <<64 + i>>
                     [] look = "first" -> IF i = 1 THEN other ELSE same
                     [] look = "middle" -> IF i = (n + 1) \div 2 THEN other ELSE same
                     [] look = "last" -> IF i = n THEN other ELSE same
       IN leaf \o (IF i < n THEN <<44>> ELSE <<>>) \o Run(n, i + 1, base)
R1 == Run(w1, 1, 0)
R2 == Run(w2, 1, 1)
(* two parts of a list, either of which may be empty *)
Both(x, y) == IF x = <<>> THEN y ELSE IF y = <<>> THEN x ELSE x \o <<44>> \o y
X == <<100>>
Y == <<99>>
Text ==
  CASE shape = 1 -> Call(f[1], Both(Call(f[2], R1), Call(f[3], R2)))
    [] shape = 2 -> Call(f[1], Both(R1, Call(f[3], R2)))
    [] shape = 3 -> Call(f[1], Both(Call(f[2], R1), R2))
    [] shape = 4 -> Call(f[1], Both(Both(R1, Call(f[3], R2)), X))
    [] shape = 5 -> Call(f[1], Both(Call(KwNot, Call(f[2], R1)), Call(f[3], R2)))
    [] shape = 6 -> Call(f[1], Call(f[2], Both(R1, Call(f[3], R2))))
    [] shape = 7 -> Call(f[1], Call(f[2], Both(Call(f[3], R2), R1)))
    [] shape = 8 -> Call(f[1], Both(Both(Both(X, Call(f[2], R1)), Call(f[3], R2)), Y))
    [] shape = 9 -> Call(f[1], Both(Both(Call(f[2], R1), X), Call(f[3], R2)))
    [] shape = 10 -> Call(KwNot, Call(f[1], Both(R1, Call(KwNot, Call(f[3], R2)))))
    [] shape = 11 -> Call(f[1], Both(Both(Call(f[2], R1), Call(KwNot, X)), Call(f[3], R2)))
    [] shape = 12 -> Call(f[1], Both(Both(Call(f[2], R1), Call(f[2], <<>>)), Call(f[3], Both(R2, Call(f[1], Y)))))
Unused == (IF shape \in {2, 4, 10} THEN {2} ELSE {}) \cup (IF shape = 3 THEN {3} ELSE {})

Init == /\ shape \in Shapes /\ w1 = 0 /\ w2 = 0 /\ look = "none" /\ f = <<KwAll, KwAll, KwAll>>
Next == /\ look = "none" /\ UNCHANGED shape
        /\ w1' \in 0..Wide /\ w2' \in 0..Wide /\ look' \in {"each", "first", "middle", "last"}
        /\ f' \in {g \in [1..3 -> Fns] : \A i \in Unused : g[i] = KwAll}
        (* how the one leaf that differs is told apart matters from three on *)
        /\ (w1' > 2 \/ w2' > 2 \/ look' = "each")
Spec == Init /\ [][Next]_vars

EmitGroups ==
  look # "none" =>
    LET t == TLCEval(Text)
        o == TLCEval(ParseText(t))
        g == TLCEval(Root(LexAll(t).toks))
        v == TLCEval(EvalQueue(o.queue)[1])
    IN /\ PrintT("@" \o ToJson([i |-> t, ok |-> 1, l |-> Leaves(o.queue), v |-> v]))
       /\ o.st = "ok" /\ v = Meaning(g.tree) /\ SameBag(Leaves(o.queue), LeavesOf(g.tree))
=============================================================================
