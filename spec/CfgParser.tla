------------------------------ MODULE CfgParser -----------------------------
(* The parser as a machine: one step per token (PStep), and what happens at *)
(* the end of the input (PFinish).  Parser state:                           *)
(*   last    kind of the previous token ("start" before the first)          *)
(*   key,val the pending leaf: <<>> or <<[v, s, e]>>                        *)
(*   stack   open functions [fn, s, e, po, leaves, fns]                     *)
(*   queue   the postfix program built so far                               *)
(*   roots   predicates completed at root level                             *)
(*   st, err "run", or "err" with the error                                 *)
(* A leaf is the triple <<kind, name, value>> the user will be shown.       *)
EXTENDS CfgLexer

PStart == [last |-> "start", key |-> <<>>, val |-> <<>>, stack |-> <<>>, queue |-> <<>>,
           roots |-> 0, st |-> "run", err |-> <<>>]

Leaf(kind, name, value) == [t |-> "p", leaf |-> <<kind, name, value>>, n |-> 0]
FnNode(fn, n) == [t |-> fn, leaf |-> <<>>, n |-> n]

---------------------------------------------------------------------------
(* Classification of a leaf.                                                *)
ExpectTarget == <<"target_abi", "target_arch", "target_feature", "target_os", "target_family",
                  "target_env", "target_endian", "target_has_atomic", "target_pointer_width",
                  "target_vendor">>

ClOk(kind, name, value) == [ok |-> TRUE, node |-> Leaf(kind, name, value), err |-> <<>>]
ClErr(err) == [ok |-> FALSE, node |-> Leaf("none", <<>>, <<>>), err |-> <<err>>]

(* key = [v, s, e]; val = <<>> or <<[v, s, e]>> (range without the quotes) *)
Classify(key, val) ==
  LET has == val # <<>>
      w == IF has THEN val[1] ELSE key
      unexpectedVal == ClErr(Err("Unexpected", <<>>, w.s, w.e))
      bare(kind, name, v) == IF has THEN unexpectedVal ELSE ClOk(kind, name, v)
      needs(x) == ClErr(Err("Unexpected", <<x>>, key.s, key.e))
      K == key.v
      target ==
        LET k == SubSeq(K, 8, Len(K)) IN
        IF ~has THEN needs("= \"<target_cfg_value>\"")
        ELSE CASE k = W_abi -> ClOk("abi", <<>>, w.v)
               [] k = W_arch -> ClOk("arch", <<>>, w.v)
               [] k = W_os -> ClOk("os", <<>>, w.v)
               [] k = W_family -> ClOk("family", <<>>, w.v)
               [] k = W_env -> ClOk("env", <<>>, w.v)
               [] k = W_vendor -> ClOk("vendor", <<>>, w.v)
               [] k = W_feature ->
                    IF w.v = <<>> THEN ClErr(Err("Unexpected", <<"<feature>">>, w.s, w.e))
                    ELSE ClOk("tfeature", <<>>, w.v)
               [] k = W_endian ->
                    IF w.v \in {W_big, W_little} THEN ClOk("endian", <<>>, w.v)
                    ELSE ClErr(Err("Unexpected", <<"big", "little">>, w.s, w.e))
               [] k = W_atomic ->
                    LET n == ParseUint(w.v, 65535) IN
                    IF n # <<>> THEN ClOk("atomic", <<>>, Decimal(n[1]))
                    ELSE IF w.v = W_ptr THEN ClOk("atomic", <<>>, W_ptr)
                    ELSE ClErr(Err("InvalidHasAtomic", <<>>, w.s, w.e))
               [] k = W_width ->
                    LET n == ParseUint(w.v, 255) IN
                    IF n # <<>> THEN ClOk("width", <<>>, Decimal(n[1]))
                    ELSE ClErr(Err("InvalidInteger", <<>>, w.s, w.e))
               [] OTHER -> ClErr(Err("Unexpected", ExpectTarget, key.s, key.e))
  IN CASE K = W_unix -> bare("family", <<>>, K)
       [] K = W_windows -> bare("family", <<>>, K)
       [] K = W_test -> bare("test", <<>>, <<>>)
       [] K = W_debug -> bare("debug", <<>>, <<>>)
       [] K = W_pm -> bare("procmacro", <<>>, <<>>)
       [] K = W_feature -> IF has THEN ClOk("feature", <<>>, w.v) ELSE needs("= \"<feature_name>\"")
       [] K = W_panic -> IF has THEN ClOk("panic", <<>>, w.v) ELSE needs("= \"<panic_strategy>\"")
       [] HasPrefix(K, W_target) -> target
       [] OTHER -> IF has THEN ClOk("kv", K, w.v) ELSE ClOk("flag", K, <<>>)

---------------------------------------------------------------------------
(* What may follow, as reported.                                            *)
Expected(last) ==
  CASE last = "start" -> ExpectStart
    [] last \in {"all", "any", "not"} -> <<"(">>
    [] last = "close" -> <<")", ",">>
    [] last = "comma" -> <<")", "<key>">>
    [] last = "eq" -> <<"\"">>
    [] last = "key" -> <<"=", ",", ")">>
    [] last = "val" -> <<",", ")">>
    [] last = "open" -> <<"<key>", ")", "all", "any", "not">>

Fail(ps, err) == [ps EXCEPT !.st = "err", !.err = <<err>>]
Unexpected(ps, tok) == Fail(ps, Err("Unexpected", Expected(ps.last), tok.s, tok.e))
AtStart(last) == last \in {"start", "open", "comma"}

Top(st) == st[Len(st)]
SetTop(st, f) == [st EXCEPT ![Len(st)] = f]
Pop(st) == SubSeq(st, 1, Len(st) - 1)

(* one action per kind of token *)
StepKey(ps, tok) ==
  IF AtStart(ps.last)
  THEN [ps EXCEPT !.key = <<[v |-> tok.v, s |-> tok.s, e |-> tok.e]>>, !.last = "key"]
  ELSE Unexpected(ps, tok)

StepVal(ps, tok) ==
  IF ps.last = "eq"
  THEN [ps EXCEPT !.val = <<[v |-> tok.v, s |-> tok.s + 1, e |-> tok.e - 1]>>, !.last = "val"]
  ELSE Unexpected(ps, tok)

StepEq(ps, tok) == IF ps.last = "key" THEN [ps EXCEPT !.last = "eq"] ELSE Unexpected(ps, tok)

StepFn(ps, tok) ==
  IF AtStart(ps.last)
  THEN LET st == IF ps.stack = <<>> THEN <<>>
                 ELSE SetTop(ps.stack, [Top(ps.stack) EXCEPT !.fns = @ + 1])
       IN [ps EXCEPT !.stack = Append(st, [fn |-> tok.k, s |-> tok.s, e |-> tok.e, po |-> <<>>,
                                           leaves |-> <<>>, fns |-> 0]),
                     !.last = tok.k]
  ELSE Unexpected(ps, tok)

StepOpen(ps, tok) ==
  IF ps.last \in {"all", "any", "not"}
  THEN [ps EXCEPT !.stack = SetTop(ps.stack, [Top(ps.stack) EXCEPT !.po = <<tok.s>>]),
                  !.last = "open"]
  ELSE Unexpected(ps, tok)

StepClose(ps, tok) ==
  IF ps.last \in {"start", "all", "any", "not", "eq"} THEN Unexpected(ps, tok)
  ELSE IF ps.stack = <<>> THEN Fail(ps, Err("UnopenedParens", <<>>, tok.s, tok.e))
  ELSE LET top == Top(ps.stack)
           rest == Pop(ps.stack)
           n == Len(top.leaves) + Len(ps.key) + top.fns
           cl == Classify(ps.key[1], ps.val)
       IN IF top.fn = "not" /\ n # 1
          THEN Fail(ps, [Err("InvalidNot", <<>>, top.s, tok.e) EXCEPT !.n = n])
          ELSE IF ps.key # <<>> /\ ~cl.ok THEN Fail(ps, cl.err[1])
          ELSE [ps EXCEPT
                  !.queue = @ \o top.leaves \o (IF ps.key = <<>> THEN <<>> ELSE <<cl.node>>)
                              \o <<FnNode(top.fn, n)>>,
                  !.stack = rest,
                  !.roots = @ + (IF rest = <<>> THEN 1 ELSE 0),
                  !.key = <<>>, !.val = <<>>, !.last = "close"]

StepComma(ps, tok) ==
  IF ps.last \in {"start", "open", "all", "any", "not", "eq", "comma"} THEN Unexpected(ps, tok)
  ELSE IF ps.key = <<>> THEN [ps EXCEPT !.last = "comma"]
  ELSE LET cl == Classify(ps.key[1], ps.val)
           next == [ps EXCEPT !.key = <<>>, !.val = <<>>, !.last = "comma"]
       IN IF ~cl.ok THEN Fail(ps, cl.err[1])
          ELSE IF ps.stack = <<>>
               THEN [next EXCEPT !.roots = @ + 1, !.queue = Append(@, cl.node)]
               ELSE [next EXCEPT !.stack =
                       SetTop(@, [Top(@) EXCEPT !.leaves = Append(@, cl.node)])]

PStep(ps, tok) ==
  CASE tok.k = "key" -> StepKey(ps, tok)
    [] tok.k = "val" -> StepVal(ps, tok)
    [] tok.k = "eq" -> StepEq(ps, tok)
    [] tok.k \in {"all", "any", "not"} -> StepFn(ps, tok)
    [] tok.k = "open" -> StepOpen(ps, tok)
    [] tok.k = "close" -> StepClose(ps, tok)
    [] tok.k = "comma" -> StepComma(ps, tok)

(* The end of the input, at byte `len`. *)
PFinish(ps, len) ==
  IF ps.last = "eq" THEN Fail(ps, Err("Unexpected", <<"\"<value>\"">>, len, len))
  ELSE IF ps.stack # <<>>
  THEN LET top == Top(ps.stack) IN
       IF top.po = <<>> THEN Fail(ps, Err("Unexpected", <<"(">>, top.s, top.e))
       ELSE Fail(ps, Err("UnclosedParens", <<>>, top.po[1], len))
  ELSE LET cl == Classify(ps.key[1], ps.val)
           roots == ps.roots + Len(ps.key)
           q == IF ps.key = <<>> THEN ps.queue ELSE Append(ps.queue, cl.node)
       IN IF ps.key # <<>> /\ ~cl.ok THEN Fail(ps, cl.err[1])
          ELSE IF roots = 0 THEN Fail(ps, Err("Empty", <<>>, 0, len))
          ELSE IF roots > 1 THEN Fail(ps, Err("MultipleRootPredicates", <<>>, 0, len))
          ELSE [ps EXCEPT !.queue = q, !.roots = roots, !.st = "ok"]

LexFail(ps, err) == Fail(ps, err)

(* The whole parse of a stripped text, as a function. *)
RECURSIVE ParseFrom(_, _, _)
ParseFrom(t, p, ps) ==
  LET r == LexStep(t, p) IN
  CASE r.st = "end" -> PFinish(ps, r.at.o)
    [] r.st = "err" -> LexFail(ps, r.err)
    [] r.st = "tok" -> LET nx == PStep(ps, r.tok)
                       IN IF nx.st = "err" THEN nx ELSE ParseFrom(t, r.at, nx)
ParseText(text) == ParseFrom(Strip(text), LexStart, PStart)

Leaves(q) == LET ps == SelectSeq(q, LAMBDA nd : nd.t = "p") IN [i \in 1..Len(ps) |-> ps[i].leaf] \o <<>>
=============================================================================
