------------------------------ MODULE MC_Words ------------------------------
(* Words one edit away from those with a meaning: the keys of the language  *)
(* and its functions, and the values that some keys accept.  Each is put in *)
(* as a key with values of several kinds, or as a value of the keys that    *)
(* look at theirs; what is expected is that of MC_Leaves.                   *)
EXTENDS MC_Leaves

CONSTANTS EditLetters

VARIABLES role      \* "key" or "value": where the edited word stands
allvars == <<key, val, ctx, role>>

KeyWords == Bare \cup Targets \cup {W_feature, W_panic, KwAll, KwAny, KwNot, W_target}
ValWords == {W_big, W_little, W_ptr, <<56>>, <<54, 52>>, <<50, 53, 53>>, <<54, 53, 53, 51, 53>>}
PickyKeys == {W_K_endian, W_K_atomic, W_K_width}
Filled == {<<<<>>>>, <<<<97>>>>, <<<<56>>>>, <<W_big>>}

Flip(c) == IF c \in 97..122 THEN c - 32 ELSE IF c \in 65..90 THEN c + 32 ELSE c
Edited(w) ==
  {SubSeq(w, 1, i) \o <<c>> \o SubSeq(w, i + 1, Len(w)) : i \in 0..Len(w), c \in EditLetters}
  \cup {SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w)) : i \in 1..Len(w)}
  \cup {[w EXCEPT ![i] = c] : i \in 1..Len(w), c \in EditLetters}
  \cup {[w EXCEPT ![i] = Flip(w[i])] : i \in 1..Len(w)}
  \cup {[w EXCEPT ![i] = w[i + 1], ![i + 1] = w[i]] : i \in 1..Len(w) - 1}
  \cup {SubSeq(w, 1, i) \o SubSeq(w, i, Len(w)) : i \in 1..Len(w)}      \* a letter doubled
  \cup {SubSeq(w, 1, i) : i \in 1..Len(w)} \cup {SubSeq(w, i, Len(w)) : i \in 1..Len(w)}
  \cup {[i \in 1..Len(w) |-> Flip(w[i])]}
IsWord(w) == w # <<>> /\ IsIdStart(w[1]) /\ \A i \in 1..Len(w) : IsIdRest(w[i])

(* letters added at an end, as versions and variants are; and one word in or beside another *)
Affixes == {<<51, 50>>, <<54, 52>>, <<49, 50, 56>>, <<95, 51, 50>>, <<95, 54, 52>>, <<95, 120>>, <<95, 48>>, <<49, 49>>, <<115>>,
            <<95, 108, 105, 107, 101>>, <<108, 105, 107, 101>>, <<120, 45>>, <<45, 120>>, <<95, 95>>,
            <<114, 35>>, <<35>>, <<58, 58>>, <<95, 110, 97, 109, 101>>, <<101, 100>>, <<105, 115, 95>>, <<104, 97, 115, 95>>}
Words_ == KeyWords \cup {W_target, W_abi, W_os, W_family, W_wasm, W_none, W_unknown, W_big, W_ptr, W_K_reloc, W_K_fmt, W_K_equal, W_K_ldst}
Joined(w) == UNION {{a \o w, w \o a} : a \in Affixes} \cup UNION {{a \o w, w \o a, a \o <<95>> \o w, w \o <<95>> \o a} : a \in Words_}

WInit == /\ role \in {"key", "value"} /\ val = <<>>
         /\ key \in (IF role = "key" THEN KeyWords ELSE PickyKeys)
         /\ ctx \in {Contexts[i] : i \in (1..Len(Contexts)) \cap UseContexts}
WNext == /\ role \in {"key", "value"}
         /\ \/ role = "key" /\ \E w \in {w \in Edited(key) \cup Joined(key) : IsWord(w)}, v \in Filled \cup {<<>>} : key' = w /\ val' = v
            \/ role = "value" /\ \E w \in UNION {Edited(x) : x \in ValWords} : val' = <<w>> /\ key' = key
         /\ role' = "done" /\ UNCHANGED ctx
WSpec == WInit /\ [][WNext]_allvars

(* a function's name is not a key: its forms are those of the machine alone *)
WLegalForms == key \in {KwAll, KwAny, KwNot} \/ LegalForms
EmitDone == role = "done" => Emit
=============================================================================
