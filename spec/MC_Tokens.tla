----------------------------- MODULE MC_Tokens ------------------------------
(* Direction A: all token sequences up to a bound that the parser does not  *)
(* reject earlier, each extended by every token.  The text is laid out as   *)
(* tokens are added.  Every state is emitted as a test: the text and what   *)
(* the implementation must answer for it.  The invariants tie the machine   *)
(* to the grammar.                                                          *)
EXTENDS CfgGrammar, CfgError, Json, TLC

CONSTANTS MaxLen,     \* tokens per text
          Alphabet,   \* symbols used
          Layout,     \* 0 tight, 1 spaced, 2 mixed with multi-byte whitespace
          Junk,       \* also add tokens that are rejected (and emit those texts)
          Render      \* also emit how errors are displayed
VARIABLES syms, txt, at, ps, toks

vars == <<syms, txt, at, ps, toks>>

Letter(i) == <<96 + i>>      \* "a", "b", ...
NKeys == Len(SelectSeq(syms, LAMBDA s : s \in {"key"}))

Body(sym) ==
  CASE sym = "open" -> <<40>> [] sym = "close" -> <<41>> [] sym = "comma" -> <<44>>
    [] sym = "eq" -> <<61>> [] sym = "all" -> KwAll [] sym = "any" -> KwAny [] sym = "not" -> KwNot
    [] sym = "key" -> Letter(1 + (NKeys % 26))
    [] sym = "feature" -> W_feature [] sym = "unix" -> W_unix
    [] sym = "endian" -> W_targetendian
    [] sym = "val" -> <<34>> \o <<118, 233, 48 + (Len(syms) % 10)>> \o <<34>>
    [] sym = "stray" -> <<233>>
    [] sym = "uquote" -> <<34, 97, 8364>>

WordSym(s) == s \in {"all", "any", "not", "key", "feature", "unix", "endian"}
Gap(sym) ==
  LET needed == syms # <<>> /\ WordSym(syms[Len(syms)]) /\ WordSym(sym)
      n == Len(syms) IN
  CASE Layout = 0 -> IF needed THEN <<32>> ELSE <<>>
    [] Layout = 1 -> <<32>>
    [] Layout = 2 -> IF n % 3 = 1 THEN <<12288>> ELSE IF n % 3 = 2 THEN <<10, 9>>
                     ELSE IF needed THEN <<133>> ELSE <<>>

Init == syms = <<>> /\ txt = <<>> /\ at = LexStart /\ ps = PStart /\ toks = <<>>

(* Tokens needed to complete the text: without Junk, hopeless texts are pruned. *)
Need(q) ==
  Len(q.stack) + (IF q.last = "eq" THEN 1 ELSE 0)
  + (IF q.last \in {"all", "any"} THEN 1 ELSE 0)
  + (IF q.last = "not" THEN 2 ELSE 0)

Add(sym) ==
  /\ ps.st = "run"
  /\ Len(syms) < MaxLen
  /\ LET t == txt \o Gap(sym) \o Body(sym)
         r == LexStep(t, at)
     IN /\ txt' = t
        /\ syms' = Append(syms, sym)
        /\ at' = r.at
        /\ IF r.st = "tok"
           THEN ps' = PStep(ps, r.tok) /\ toks' = Append(toks, r.tok)
           ELSE ps' = LexFail(ps, r.err) /\ toks' = toks
        /\ Junk \/ (ps'.st = "run" /\ Need(ps') <= MaxLen - Len(syms'))

Next == \E sym \in Alphabet : Add(sym)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Outcome == IF ps.st = "err" THEN ps ELSE PFinish(ps, at.o)

Expectation ==
  LET o == Outcome IN
  IF o.st = "err"
  THEN [i |-> txt, ok |-> 0, r |-> o.err[1].r, x |-> o.err[1].x, n |-> o.err[1].n,
        s |-> o.err[1].s, e |-> o.err[1].e, d |-> IF Render THEN Rendered(txt, o.err[1]) ELSE <<>>]
  ELSE LET v == EvalQueue(o.queue)[1] IN
       [i |-> txt, ok |-> 1, l |-> Leaves(o.queue), v |-> v]

Emit == Junk \/ Outcome.st = "ok" => PrintT("@" \o ToJson(Expectation))

(* The incremental layout is the text's own tokenization. *)
LexAgrees == ps.st = "run" => LexAll(txt) = [toks |-> toks, err |-> <<>>]

(* The machine accepts exactly the grammar, and builds its meaning. *)
AcceptsGrammar ==
  ps.st = "run" =>
    LET o == Outcome
        g == Root(toks)
    IN /\ (o.st = "ok") = g.ok
       /\ g.ok => /\ WellFormed(o.queue)
                  /\ EvalQueue(o.queue) = <<Meaning(g.tree)>>
                  /\ SameBag(Leaves(o.queue), LeavesOf(g.tree))
SpansUsable == Outcome.st = "err" => SpanOk(txt, Outcome.err[1])
KleeneSound ==
  LET o == Outcome IN
  o.st = "ok" => LET v == EvalQueue(o.queue)[1] IN BAnd(v.kt, v.kf) = 0
=============================================================================
