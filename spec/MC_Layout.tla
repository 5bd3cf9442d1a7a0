----------------------------- MODULE MC_Layout ------------------------------
(* Every sentence up to a bound in several layouts: they are one expression.*)
EXTENDS MC_Tokens

RECURSIVE NumKeys(_, _)
NumKeys(S, i) == IF i = 0 THEN 0 ELSE NumKeys(S, i - 1) + (IF S[i] = "key" THEN 1 ELSE 0)
BodyAt(i) == IF syms[i] = "key" THEN Letter(1 + (NumKeys(syms, i - 1) % 26))
             ELSE IF syms[i] = "val" THEN <<34, 118, 233, 34>> ELSE Body(syms[i])
Ws(k) == CASE k % 5 = 0 -> <<32>> [] k % 5 = 1 -> <<10, 9>> [] k % 5 = 2 -> <<12288>>
           [] k % 5 = 3 -> <<8232, 32>> [] k % 5 = 4 -> <<160>>

(* layout: "tight", "wide" (one space everywhere), "odd" (all kinds of whitespace) *)
RECURSIVE Lay(_, _, _)
Lay(i, layout, commas) ==
  IF i > Len(syms) THEN IF layout = "tight" THEN <<>> ELSE Ws(i)
  ELSE LET needed == i > 1 /\ WordSym(syms[i - 1]) /\ WordSym(syms[i])
           gap == CASE layout = "tight" -> IF needed THEN <<32>> ELSE <<>>
                    [] layout = "wide" -> <<32>>
                    [] layout = "odd" -> Ws(i)
           comma == IF commas /\ syms[i] = "close" /\ syms[i - 1] \notin {"open", "comma"}
                    THEN <<44>> ELSE <<>>
       IN comma \o gap \o BodyAt(i) \o Lay(i + 1, layout, commas)

Wrap(t) == W_cfg \o t \o <<41>>
Rooted(t) == IF syms[Len(syms)] = "comma" THEN t ELSE t \o <<44>>
Variants ==
  << Lay(1, "tight", FALSE), Lay(1, "wide", FALSE), Lay(1, "odd", FALSE), Lay(1, "tight", TRUE),
     Lay(1, "odd", TRUE), Wrap(Lay(1, "tight", FALSE)), Wrap(Lay(1, "odd", TRUE)),
     Rooted(Lay(1, "tight", FALSE)), Wrap(Rooted(Lay(1, "wide", TRUE))) >>

Good == syms # <<>> /\ Outcome.st = "ok"
VariantsAgree ==
  Good => LET vs == Variants
              o == ParseText(vs[1])
              l == Leaves(o.queue)
              e == EvalQueue(o.queue)
          IN o.st = "ok" /\ \A j \in 2..Len(vs) :
               LET p == ParseText(vs[j])
               IN p.st = "ok" /\ Leaves(p.queue) = l /\ EvalQueue(p.queue) = e
EmitVariants ==
  Good => LET vs == Variants
              o == ParseText(vs[1])
          IN PrintT("@" \o ToJson([vs |-> vs, o |-> [j \in 1..Len(vs) |-> Strip(vs[j])],
                                   l |-> Leaves(o.queue), v |-> EvalQueue(o.queue)[1]]))
=============================================================================
