------------------------------- MODULE MC_Near ------------------------------
(* One edit away: every sentence up to a bound with one token put in, taken *)
(* out, replaced or exchanged with the next.  What the first thing wrong    *)
(* leaves behind is then followed by what would have completed the text.    *)
EXTENDS MC_Tokens

CONSTANTS Edits,      \* symbols put in
          Bad         \* also with one key standing for a leaf that is wrong in itself

(* wrong leaves: bare, with a value, with a value of no use; known and not  *)
Quoted(v) == <<61, 34>> \o v \o <<34>>
BadLeaf(n) ==
  CASE n = 1 -> W_K_width \o Quoted(<<120>>) [] n = 2 -> W_K_atomic \o Quoted(<<>>)
    [] n = 3 -> W_K_os [] n = 4 -> W_unix \o Quoted(<<>>) [] n = 5 -> W_K_endian \o Quoted(<<66>>)
    [] n = 6 -> W_target \o Quoted(<<97>>) [] n = 7 -> W_feature [] n = 8 -> W_K_feature \o Quoted(<<>>)
BadLeaves == 1..8

RECURSIVE LayOut(_, _, _, _, _)
LayOut(S, at_, bad, i, acc) ==      \* the key at at_ (0: none) is that wrong leaf
  IF i > Len(S) THEN acc
  ELSE LET needed == i > 1 /\ WordSym(S[i - 1]) /\ WordSym(S[i])
           body == IF i = at_ THEN BadLeaf(bad)
                   ELSE IF S[i] = "key" THEN Letter(1 + ((i - 1) % 26))
                   ELSE IF S[i] = "val" THEN <<34, 118, 233, 34>>
                   ELSE Body(S[i])
       IN LayOut(S, at_, bad, i + 1, acc \o (IF needed THEN <<32>> ELSE <<>>) \o body)

Put(S, i, x) == SubSeq(S, 1, i) \o <<x>> \o SubSeq(S, i + 1, Len(S))
Out(S, i) == SubSeq(S, 1, i - 1) \o SubSeq(S, i + 1, Len(S))
Swap(S, i) == [S EXCEPT ![i] = S[i + 1], ![i + 1] = S[i]]

Neighbours(S) ==
  {Put(S, i, x) : i \in 0..Len(S), x \in Edits}
  \cup {Out(S, i) : i \in 1..Len(S)}
  \cup {[S EXCEPT ![i] = x] : i \in 1..Len(S), x \in Edits}
  \cup {Swap(S, i) : i \in 1..Len(S) - 1}

Verdict(t) ==
  LET o == ParseText(t) IN
  IF o.st = "err"
  THEN [i |-> t, ok |-> 0, r |-> o.err[1].r, x |-> o.err[1].x, n |-> o.err[1].n, s |-> o.err[1].s, e |-> o.err[1].e]
  ELSE [i |-> t, ok |-> 1, l |-> Leaves(o.queue), v |-> EvalQueue(o.queue)[1]]

Good == syms # <<>> /\ Outcome.st = "ok"
Texts == UNION {
  {LayOut(S, 0, 0, 1, <<>>)}
  \cup (IF Bad THEN {LayOut(S, k, b, 1, <<>>) : k \in {k \in 1..Len(S) : S[k] = "key"}, b \in BadLeaves} ELSE {})
  : S \in Neighbours(syms) \cup {syms}}

(* emitted; and the grammar says so too *)
EmitNear ==
  Good => \A t \in Texts :
    LET l == LexAll(t)
        w == TLCEval(Verdict(t))
    IN PrintT("@" \o ToJson(w)) /\ (w.ok = 1) = (l.err = <<>> /\ Root(l.toks).ok)
=============================================================================
