----------------------------- MODULE MC_Wrapper -----------------------------
(* The wrapper `cfg(...)` and everything that looks like it: each of its    *)
(* parts (what comes before, the word, what is between it and the           *)
(* parenthesis, the parenthesis, the inside, its end, what comes after) as  *)
(* it should be or one of many ways in which it should not, up to MaxOff of *)
(* them off at once.                                                        *)
EXTENDS CfgGrammar, CfgError, Json, TLC

CONSTANTS MaxOff, Render
VARIABLES at, off, raw       \* the part to come, the parts that are off, the text so far
vars == <<at, off, raw>>

Cfg3 == <<99, 102, 103>>
Flip(c) == IF c \in 97..122 THEN c - 32 ELSE c
Edited(w) ==
  {SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w)) : i \in 1..Len(w)}
  \cup {SubSeq(w, 1, i) \o <<c>> \o SubSeq(w, i + 1, Len(w)) : i \in 0..Len(w), c \in {95, 32, 97, 33}}
  \cup {[w EXCEPT ![i] = Flip(w[i])] : i \in 1..Len(w)} \cup {[i \in 1..Len(w) |-> Flip(w[i])]}
  \cup {[w EXCEPT ![i] = 105] : i \in 1..Len(w)} \cup {SubSeq(w, 1, i) \o SubSeq(w, i, Len(w)) : i \in 1..Len(w)}
Blanks == {<<32>>, <<9>>, <<10>>, <<13, 10>>, <<160>>, <<8203>>, <<12288>>, <<32, 32>>, <<65279>>}

Usual == <<<<>>, Cfg3, <<>>, <<40>>, <<97>>, <<41>>, <<>>>>
(* cfg_attr, quotation, other brackets, the wrapper twice *)
Odd(i) ==
  CASE i = 1 -> Blanks \cup {<<35, 91>>, <<35>>, W_cfg, <<40>>, <<44>>, <<34>>, <<33>>, <<97>>, <<233>>}
    [] i = 2 -> Edited(Cfg3) \cup {<<>>, Cfg3 \o <<95>> \o <<97, 116, 116, 114>>, KwAll, KwAny, KwNot, <<102, 101, 97, 116, 117, 114, 101>>}
    [] i = 3 -> Blanks \cup {<<33>>, <<61>>, <<34>>, <<46>>, <<44>>, <<97>>}
    [] i = 4 -> {<<>>, <<40, 40>>, <<91>>, <<123>>, <<40, 32>>, <<40, 10>>, <<65288>>}
    [] i = 5 -> {<<>>, W_cfg \o <<97, 41>>, KwAll \o <<40, 97, 41>>, KwNot \o <<40, 41>>, <<97, 61, 34, 41, 34>>, <<97, 44>>, <<34>>, <<40>>, <<41>>, <<97, 41>>,
                 <<97, 44, 98>>, <<233>>, Cfg3, <<61>>, KwAny \o <<40, 41>>, <<97, 61, 34>>}
    [] i = 6 -> {<<>>, <<41, 41>>, <<32, 41>>, <<44, 41>>, <<93>>, <<125>>, <<10, 41>>, <<65289>>}
    [] i = 7 -> Blanks \cup {<<41>>, <<40>>, <<44>>, <<59>>, <<93>>, <<97>>, <<34>>, <<40, 41>>, <<32, 41>>, <<44, 41>>, <<233, 41>>, <<0>>}

Init == at = 1 /\ off = 0 /\ raw = <<>>
Next == /\ at <= Len(Usual) /\ at' = at + 1
        /\ \/ raw' = raw \o Usual[at] /\ off' = off
           \/ off < MaxOff /\ off' = off + 1 /\ \E w \in Odd(at) : raw' = raw \o w
Spec == Init /\ [][Next]_vars
Done == at > Len(Usual)

Text == Strip(raw)
EmitWrapped ==
  Done => LET o == TLCEval(ParseText(raw)) IN
  /\ PrintT("@" \o ToJson([i |-> raw, p |->
       IF o.st = "err"
       THEN [ok |-> 0, r |-> o.err[1].r, x |-> o.err[1].x, n |-> o.err[1].n, s |-> o.err[1].s,
             e |-> o.err[1].e, d |-> IF Render THEN Rendered(Text, o.err[1]) ELSE <<>>, o |-> Text]
       ELSE [ok |-> 1, l |-> Leaves(o.queue), v |-> EvalQueue(o.queue)[1], o |-> Text]]))
  /\ (o.st = "ok") = TextInLanguage(raw)
  /\ o.st = "err" => SpanOk(Text, o.err[1])
(* the wrapper is that text and no other *)
OnlyThat == Done => (Text # raw) = (HasPrefix(raw, W_cfg) /\ raw[Len(raw)] = 41)
=============================================================================
