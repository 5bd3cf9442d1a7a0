------------------------------ MODULE MC_Render -----------------------------
(* Direction A: errors a caller puts together, of every reason, over every  *)
(* usable range of some texts, and how they are shown.                      *)
EXTENDS CfgError, Json

Texts == << <<>>, <<97>>, <<97, 32, 61>>, <<233, 40, 26085, 41>>, <<128512, 10, 9, 34, 98>>, [i \in 1..40 |-> 97 + (i % 3)] >>
Plain == {"InvalidCharacters", "UnclosedParens", "UnopenedParens", "UnclosedQuotes", "UnopenedQuotes", "Empty",
          "InvalidInteger", "MultipleRootPredicates", "InvalidHasAtomic", "UnknownBuiltin"}
Many == ExpectTarget
Lists == {<<>>, <<"<key>">>, <<"big", "little">>, <<"(">>, <<",", ")">>, <<"\"">>, <<"all", "all">>, <<"= \"<feature_name>\"">>} \cup
         {SubSeq(Many, 1, n) : n \in 3..Len(Many)} \cup {Many \o Many}
Counts == {0, 1, 2, 9, 10, 99, 100, 65535, 65536, 1000000}

VARIABLES text, err
Init == text = 0 /\ err = Err("", <<>>, 0, 0)
E(r, x, n, s, e) == [r |-> r, x |-> x, n |-> n, s |-> s, e |-> e]
Next ==
  /\ text = 0
  /\ \E i \in 1..Len(Texts) :
       /\ text' = i
       /\ \E s, e \in 0..ByteLen(Texts[i]) :
            /\ s <= e /\ (Len(Texts[i]) < 9 \/ (s \in {0, 7, 40} /\ e \in {s, s + 1, 33, 40}))
            /\ IsBoundary(Texts[i], s) /\ IsBoundary(Texts[i], e)
            /\ \/ \E r \in Plain : err' = E(r, <<>>, 0, s, e)
               \/ \E x \in Lists : err' = E("Unexpected", x, 0, s, e)
               \/ \E n \in Counts : err' = E("InvalidNot", <<>>, n, s, e)
Spec == Init /\ [][Next]_<<text, err>>

Shown == Rendered(Texts[text], err)
Emit == text > 0 => PrintT("@" \o ToJson([o |-> Texts[text], err |-> err, d |-> Shown, rd |-> Message(err), ds |-> Description(err)]))
(* The text stands first, and what is said about it on a line below it.     *)
LastLine == CHOOSE t \in {SubSeq(Shown, i + 1, Len(Shown)) : i \in {i \in 1..Len(Shown) : Shown[i] = 10}} :
              \A i \in 1..Len(t) : t[i] # 10
Shape == text > 0 => /\ HasPrefix(Shown, Texts[text])
                     /\ SpanOk(Texts[text], err)
                     /\ \A i \in 1..err.s : LastLine[i] = 32
                     /\ Len(LastLine) = err.s + Len(Marker(err)) + 1 + Len(Message(err))
=============================================================================
