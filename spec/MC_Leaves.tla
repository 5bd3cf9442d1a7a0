------------------------------ MODULE MC_Leaves -----------------------------
(* Direction A for leaves: every key with every value (and without one), in *)
(* every context.                                                           *)
EXTENDS CfgGrammar, CfgError, CfgLeafData, Json, TLC

CONSTANTS UseContexts, Render
VARIABLES key, val, ctx      \* val = <<>>: no value

Init == /\ key \in Keys
        /\ val = <<>>
        /\ ctx \in {Contexts[i] : i \in (1..Len(Contexts)) \cap UseContexts}
Next == val = <<>> /\ (\E w \in Values : val' = <<w>>) /\ UNCHANGED <<key, ctx>>
Spec == Init /\ [][Next]_<<key, val, ctx>>

Val == IF val = <<>> THEN <<>>
       ELSE LET b == <<34>> \o val[1] \o <<34>>
            IN IF (Len(key) + Len(val[1])) % 2 = 0 THEN <<61>> \o b ELSE <<32, 61, 9>> \o b
Text == ctx[1] \o key \o Val \o ctx[2]

Emit ==
  LET o == ParseText(Text)
      t == Strip(Text)
  IN PrintT("@" \o ToJson(
       IF o.st = "err"
       THEN [i |-> Text, p |-> [ok |-> 0, r |-> o.err[1].r, x |-> o.err[1].x, n |-> o.err[1].n, s |-> o.err[1].s,
             e |-> o.err[1].e, d |-> IF Render THEN Rendered(t, o.err[1]) ELSE <<>>, o |-> t]]
       ELSE [i |-> Text, p |-> [ok |-> 1, l |-> Leaves(o.queue), v |-> EvalQueue(o.queue)[1], o |-> t]]))
AcceptsGrammar ==
  LET o == ParseText(Text)
      g == Root(LexAll(Strip(Text)).toks)
  IN /\ (o.st = "ok") = g.ok
     /\ g.ok => SameBag(Leaves(o.queue), LeavesOf(g.tree)) /\ EvalQueue(o.queue) = <<Meaning(g.tree)>>
SpansUsable == LET o == ParseText(Text) IN o.st = "err" => SpanOk(Strip(Text), o.err[1])

(* The leaf itself, stated once more as a table of legal forms. *)
Bare == {W_unix, W_windows, W_test, W_debug, W_pm}
Targets == {W_target \o s : s \in {W_abi, W_arch, W_os, W_family, W_env, W_vendor, W_feature, W_endian,
                                   W_atomic, W_width}}
Legal ==
  LET K == key IN
  IF K \in Bare THEN val = <<>>
  ELSE IF K \in {W_feature, W_panic} THEN val # <<>>
  ELSE IF HasPrefix(K, W_target)
       THEN /\ val # <<>> /\ K \in Targets
            /\ LET w == val[1] IN
               /\ K = W_target \o W_feature => w # <<>>
               /\ K = W_target \o W_endian => w \in {W_big, W_little}
               /\ K = W_target \o W_atomic => w = W_ptr \/ ParseUint(w, 65535) # <<>>
               /\ K = W_target \o W_width => ParseUint(w, 255) # <<>>
  ELSE K \notin {KwAll, KwAny, KwNot}
LegalForms == ctx = <<<<>>, <<>>>> => (ParseText(Text).st = "ok") = Legal
=============================================================================
