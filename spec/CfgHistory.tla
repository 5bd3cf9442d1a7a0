----------------------------- MODULE CfgHistory -----------------------------
(* What a program does with the library, one call after the other: it keeps *)
(* expressions in slots, and asks.  The answer to every call is a function  *)
(* of its arguments and of the text an expression was parsed from, whatever *)
(* was done before, and whatever other threads do.  A state is the text (by *)
(* number) in every slot, 0 for none.  A call is a sequence of a name and   *)
(* numbers:                                                                 *)
(*   parse s i    the text i; if accepted it is put into slot s             *)
(*   list s, eval s, orig s, drop s                                         *)
(*   abort s n    an evaluation whose callback panics at its nth call       *)
(*   nest s z     an evaluation of s whose callback evaluates z at every    *)
(*                call                                                      *)
(*   inside s i   an evaluation of s whose callback parses i at every call  *)
(*   copy s z     a clone of s into z                                       *)
(*   eq s z                                                                 *)
(*   find j       the triple j is looked up                                 *)
(*   match j p    the predicate p on the target found for triple j          *)
(*   made k p     the predicate p on the made-up target k                   *)
(*   lex j p      the predicate p on the triple library's triple j          *)
(*   verdict s j  s evaluated for the target found for triple j             *)
(*   shared i     the value of an expression of the text i that was parsed  *)
(*                before everything and belongs to all threads              *)
(* Threads have slots of their own, so a run of several threads is any      *)
(* interleaving of a history each, with the answers of each unchanged.      *)
EXTENDS CfgVerdict, CfgError

ASSUME TLCSet(8, JsonDeserialize(IOEnv.DOMAIN))   \* texts, triples, preds, made
Texts == TLCGet(8).texts
Triples == TLCGet(8).triples
Preds == TLCGet(8).preds
Made == TLCGet(8).made
CONSTANT NSlots
Slots == 1..NSlots

---------------------------------------------------------------------------
(* What there is to know about a text. *)
Outcome(text) ==
  LET o == ParseText(text)
  IN IF o.st = "err"
     THEN [ok |-> 0, o |-> Strip(text), r |-> o.err[1].r, s |-> o.err[1].s, e |-> o.err[1].e, l |-> <<>>, v |-> VTop, on |-> {}]
     ELSE [ok |-> 1, o |-> Strip(text), r |-> "", s |-> 0, e |-> 0, l |-> Leaves(o.queue), v |-> EvalQueue(o.queue)[1],
           on |-> TreeSet(Root(LexAll(Strip(text)).toks).tree, {})]
ASSUME TLCSet(11, LET ts == Texts IN TLCEval([i \in 1..Len(ts) |-> Outcome(ts[i])]))
Known == TLCGet(11)
(* the number of a triple's target in the release, or 0 *)
ASSUME TLCSet(12, LET ts == Ts
                      js == Triples
                  IN TLCEval([j \in 1..Len(js) |-> Scan(ts, js[j])]))
Entry(j) == TLCGet(12)[j]
ASSUME TLCSet(13, LET ps == Preds
                      ts == Ts
                      js == Triples
                  IN TLCEval([j \in 1..Len(js) |-> [p \in 1..Len(ps) |->
                       IF Entry(j) = 0 THEN FALSE ELSE <<ps[p][1], ps[p][2]>> \in CfgSet(ts[Entry(j)])]]))
Holds(j, p) == TLCGet(13)[j][p]

Ok(i) == Known[i].ok = 1
Start == [s \in Slots |-> 0]

Enabled(sl, c) ==
  CASE c[1] \in {"parse", "find", "match", "made", "lex"} -> TRUE
    [] c[1] = "shared" -> Ok(c[2])
    [] c[1] \in {"nest", "eq"} -> sl[c[2]] # 0 /\ sl[c[3]] # 0
    [] OTHER -> sl[c[2]] # 0
After(sl, c) ==
  CASE c[1] = "parse" -> IF Ok(c[3]) THEN [sl EXCEPT ![c[2]] = c[3]] ELSE sl
    [] c[1] = "copy" -> [sl EXCEPT ![c[3]] = sl[c[2]]]
    [] c[1] = "drop" -> [sl EXCEPT ![c[2]] = 0]
    [] OTHER -> sl
NLeaves(i) == Len(Known[i].l)
(* The question a call asks, free of where its expression is kept. *)
Question(sl, c) ==
  CASE c[1] = "parse" -> <<"outcome", c[3], 0>>
    [] c[1] = "list" -> <<"leaves", sl[c[2]], 0>>
    [] c[1] \in {"eval", "shared"} -> <<"value", IF c[1] = "eval" THEN sl[c[2]] ELSE c[2], 0>>
    [] c[1] = "orig" -> <<"text", sl[c[2]], 0>>
    [] c[1] = "drop" -> <<"gone", 0, 0>>
    [] c[1] = "abort" -> <<"abort", sl[c[2]], c[3]>>
    [] c[1] = "nest" -> <<"nest", sl[c[2]], sl[c[3]]>>
    [] c[1] = "inside" -> <<"inside", sl[c[2]], c[3]>>
    [] c[1] = "copy" -> <<"copied", sl[c[2]], 0>>
    [] c[1] = "eq" -> <<"eq", sl[c[2]], sl[c[3]]>>
    [] c[1] \in {"find", "match", "made", "lex"} -> <<c[1], c[2], IF c[1] = "find" THEN 0 ELSE c[3]>>
    [] c[1] = "verdict" -> <<"verdict", sl[c[2]], c[3]>>
(* Its answer, where that is yes or no; the parts of Known otherwise. *)
Bit(b) == IF b THEN 1 ELSE 0
Decided(q) == q[1] \in {"gone", "abort", "copied", "eq", "find", "match", "made", "verdict"}
Answer(q) ==
  Bit(CASE q[1] \in {"gone", "copied"} -> TRUE
        [] q[1] = "abort" -> NLeaves(q[2]) >= q[3]
        [] q[1] = "eq" -> Known[q[2]].o = Known[q[3]].o
        [] q[1] = "find" -> Entry(q[2]) # 0
        [] q[1] = "match" -> Holds(q[2], q[3])
        [] q[1] = "made" -> Matches(Made[q[2]], <<Preds[q[3]][1], Preds[q[3]][2]>>)
        [] q[1] = "verdict" -> Entry(q[3]) # 0 /\ Entry(q[3]) \in Known[q[2]].on)
(* A history of its own that asks the question: at most two texts parsed,   *)
(* then one call.                                                           *)
Alone(q) ==
  LET p(s, i) == <<"parse", s, i>> IN
  CASE q[1] = "outcome" -> <<p(1, q[2])>>
    [] q[1] = "leaves" -> <<p(1, q[2]), <<"list", 1>>>>
    [] q[1] = "value" -> <<p(1, q[2]), <<"eval", 1>>>>
    [] q[1] = "text" -> <<p(1, q[2]), <<"orig", 1>>>>
    [] q[1] = "gone" -> <<>>
    [] q[1] = "abort" -> <<p(1, q[2]), <<"abort", 1, q[3]>>>>
    [] q[1] \in {"nest", "eq"} -> <<p(1, q[2]), p(2, q[3]), <<q[1], 1, 2>>>>
    [] q[1] = "inside" -> <<p(1, q[2]), <<"inside", 1, q[3]>>>>
    [] q[1] = "copied" -> <<p(1, q[2]), <<"copy", 1, 2>>>>
    [] q[1] = "verdict" -> <<p(1, q[2]), <<"verdict", 1, q[3]>>>>
    [] q[1] = "find" -> <<<<"find", q[2]>>>>
    [] OTHER -> <<<<q[1], q[2], q[3]>>>>
RECURSIVE AfterAll(_, _, _)
AfterAll(sl, h, n) == IF n = 0 THEN sl ELSE After(AfterAll(sl, h, n - 1), h[n])
=============================================================================
