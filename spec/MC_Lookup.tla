------------------------------ MODULE MC_Lookup -----------------------------
(* Direction A for lookup: every triple of the release and all its          *)
(* neighbours under small edits.                                            *)
EXTENDS CfgTarget, Json, TLC, IOUtils

CONSTANTS Letters,     \* code points put in
          Paddings     \* lengths put after
ASSUME TLCSet(7, JsonDeserialize(IOEnv.TARGETS))
ASSUME TLCSet(8, JsonDeserialize(IOEnv.DOMAIN))   \* words put before, after and in place of parts
Words == TLCGet(8).words
Ts == TLCGet(7).targets

VARIABLES s, edited
Init == s \in {Ts[i].triple : i \in 1..Len(Ts)} \cup {<<>>, <<48>>, <<122, 122>>, <<1114111>>} /\ edited = FALSE

Delete == \E i \in 1..Len(s) : s' = SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Insert == \E i \in 0..Len(s), c \in Letters : s' = SubSeq(s, 1, i) \o <<c>> \o SubSeq(s, i + 1, Len(s))
Replace == \E i \in 1..Len(s), c \in Letters : s' = [s EXCEPT ![i] = c]
Truncate == \E i \in 1..Len(s) : s' = SubSeq(s, 1, i)
Suffix == \E i \in 1..Len(s) : s' = SubSeq(s, i, Len(s))
Case == \E i \in 1..Len(s) : s[i] \in 97..122 /\ s' = [s EXCEPT ![i] = @ - 32]
Bump == \E i \in 1..Len(s), d \in {-1, 1} : s[i] + d >= 0 /\ s[i] + d <= 127 /\ s' = [s EXCEPT ![i] = @ + d]
(* a letter that looks like another, or that is it in another case or width *)
Alike(c) == {c + 65248} \cup (CASE c = 107 -> {8490} [] c = 115 -> {383} [] c = 105 -> {304, 305} [] c = 45 -> {8208, 8211, 8722, 95, 173}
                               [] c = 97 -> {1072, 8336, 65} [] c = 120 -> {1093, 215} [] c = 111 -> {1086, 48} [] c \in 48..57 -> {c + 1584, c + 120734}
                               [] OTHER -> {})
Lookalike == \E i \in {i \in 1..Len(s) : s[i] \in 33..126} : \E c \in Alike(s[i]) : s' = [s EXCEPT ![i] = c]
(* a letter that says nothing, many times *)
Padded == \E n \in Paddings, c \in {0, 32, 120} : \/ s' = s \o [i \in 1..n |-> c]
                                                  \/ c # 120 /\ n < 100 /\ s' = [i \in 1..n |-> c] \o s
(* letters exchanged, doubled, or moved one way and the other *)
Swap == \E i \in 1..Len(s) - 1, d \in {1, 2, 3} : i + d <= Len(s) /\ s' = [s EXCEPT ![i] = s[i + d], ![i + d] = s[i]]
Double == \E i \in 1..Len(s) : s' = SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
Balance == \E i \in 1..Len(s) - 1, d \in {-1, 1} : /\ s[i] \in 1..126 /\ s[i + 1] \in 1..126
                                                /\ s' = [s EXCEPT ![i] = @ + d, ![i + 1] = @ - d]
Around == \E k \in 1..Len(Words) : s' = Words[k] \o s \/ s' = s \o Words[k]
(* one of the parts between dashes left out, doubled or replaced by a word, or the parts reordered *)
Dashes == {i \in 1..Len(s) : s[i] = 45}
Cuts == {0, Len(s) + 1} \cup Dashes
Ends(i) == CHOOSE j \in Cuts : j > i /\ \A k \in Cuts : k > i => k >= j
Part == \E i \in {0} \cup Dashes :
          LET j == Ends(i)
              pre == SubSeq(s, 1, i)
              post == SubSeq(s, j, Len(s))
              w == SubSeq(s, i + 1, j - 1)
          IN \/ s' = (IF post = <<>> THEN SubSeq(s, 1, i - 1) ELSE pre \o Tail(post))
             \/ s' = pre \o w \o <<45>> \o w \o post
             \/ s' = w \o <<45>> \o pre \o post
             \/ \E k \in 1..Len(Words) : s' = pre \o Words[k] \o post
Next == ~edited /\ edited' = TRUE /\ (Delete \/ Insert \/ Replace \/ Truncate \/ Suffix \/ Case \/ Bump \/ Lookalike \/ Padded \/ Swap \/ Double \/ Balance \/ Around \/ (s # <<>> /\ Part))
Spec == Init /\ [][Next]_<<s, edited>>

Emit == PrintT("@" \o ToJson([s |-> s, i |-> Scan(Ts, s)]))
SearchIsScan == Bisect(Ts, s, 1, Len(Ts)) = Scan(Ts, s)
=============================================================================
