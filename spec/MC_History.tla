----------------------------- MODULE MC_History -----------------------------
(* Direction A: every history of calls up to a length (or, simulated, long  *)
(* ones), with the questions they ask.                                      *)
EXTENDS CfgHistory, Randomization
CONSTANTS Len_,           \* calls per history
          Ops,            \* the calls made
          Pick            \* 0: all of them; otherwise this many, drawn at random, at every step
VARIABLES slots, calls, asked
vars == <<slots, calls, asked>>

T == 1..Len(Texts)
J == 1..Len(Triples)
Q == 1..Len(Preds)
M == 1..Len(Made)
ASSUME TLCSet(14, {c \in
     {<<"parse", s, i>> : s \in Slots, i \in T} \cup {<<"shared", i>> : i \in T}
  \cup {<<n, s>> : s \in Slots, n \in {"list", "eval", "orig", "drop"}}
  \cup {<<"abort", s, n>> : s \in Slots, n \in 1..2}
  \cup {<<n, s, z>> : s \in Slots, z \in Slots, n \in {"nest", "copy", "eq"}}
  \cup {<<"inside", s, i>> : s \in Slots, i \in T}
  \cup {<<"find", j>> : j \in J}
  \cup {<<n, j, p>> : n \in {"match", "lex"}, j \in J, p \in Q}
  \cup {<<"made", k, p>> : k \in M, p \in Q}
  \cup {<<"verdict", s, j>> : s \in Slots, j \in J} : c[1] \in Ops})
Calls == TLCGet(14)

Init == slots = Start /\ calls = <<>> /\ asked = <<>>
Do(c) ==
  /\ Enabled(slots, c)
  /\ calls' = Append(calls, c)
  /\ asked' = Append(asked, Question(slots, c))
  /\ slots' = After(slots, c)
Next ==
  /\ Len(calls) < Len_
  /\ IF Pick = 0 THEN \E c \in Calls : Do(c)
     ELSE IF Len(calls) = Len_ - 1 THEN Do(<<"parse", 1, 1>>)    \* no two emitted share all but one call
     ELSE \E c \in RandomSubset(Pick, Calls) : Do(c)
Spec == Init /\ [][Next]_vars

Whole == Len(calls) = Len_
Emit == Whole => PrintT("@" \o ToJson([c |-> calls, q |-> asked]))
(* The last question has the same answer in a history of its own. *)
Last(s) == s[Len(s)]
FreeOfHistory ==
  asked # <<>> =>
    LET q == Last(asked)
        h == Alone(q)
        n == Len(h)
    IN n > 0 => /\ Question(AfterAll(Start, h, n - 1), h[n]) = q
                /\ \A k \in 1..n : Enabled(AfterAll(Start, h, k - 1), h[k])
(* Slots hold accepted texts, and what is in them is what was put there. *)
Holding == \A s \in Slots : slots[s] # 0 => Ok(slots[s])
Equality ==
  asked # <<>> /\ Last(asked)[1] = "eq" /\ Last(asked)[2] = Last(asked)[3] => Answer(Last(asked)) = 1
Complement ==        \* a verdict is what the set of targets says
  asked # <<>> /\ Last(asked)[1] = "verdict" => Answer(Last(asked)) \in {0, 1}

(* For the texts, and for every question, once: what is known about them. *)
Questions ==
  {<<"outcome", i, 0>> : i \in T} \cup {<<n, i, 0>> : n \in {"leaves", "value", "text", "copied"}, i \in {k \in T : Ok(k)}}
  \cup {<<"abort", i, n>> : n \in 1..2, i \in {k \in T : Ok(k)}}
  \cup {<<"find", j, 0>> : j \in J} \cup {<<n, j, p>> : n \in {"match", "lex"}, j \in J, p \in Q}
  \cup {<<"made", k, p>> : k \in M, p \in Q}
EmitQuestions ==
  calls = <<>> =>
    \A q \in Questions :
      (q[1] = "lex" => "lex" \in Ops) =>
      PrintT("@" \o ToJson([q |-> q, h |-> Alone(q), yes |-> IF Decided(q) THEN Answer(q) ELSE 2,
                            known |-> IF q[1] \in {"outcome", "leaves", "value", "text"}
                                      THEN LET k == Known[q[2]] IN [ok |-> k.ok, o |-> k.o, r |-> k.r, s |-> k.s, e |-> k.e, l |-> k.l, v |-> k.v]
                                      ELSE [ok |-> 2]]))
=============================================================================
