----------------------------- MODULE MC_Readme ------------------------------
(* Every readme of up to MaxLen pieces, and every history of updates with   *)
(* the given versions from it.                                              *)
EXTENDS CfgReadme, Json, IOUtils
ASSUME TLCSet(7, JsonDeserialize(IOEnv.DOMAIN))   \* pieces, versions: sequences of texts
D == TLCGet(7)
CONSTANTS MaxLen, MaxUpdates

VARIABLES s, n, first, hist       \* readme, its pieces, the readme before the updates, the versions so far
vars == <<s, n, first, hist>>
Init == s = <<>> /\ n = 0 /\ first = <<>> /\ hist = <<>>
Write == /\ hist = <<>> /\ n < MaxLen /\ n' = n + 1 /\ UNCHANGED hist
         /\ \E i \in 1..Len(D.pieces) : s' = s \o D.pieces[i] /\ first' = s'
Upd == /\ Len(hist) < MaxUpdates /\ Label(s) # <<>> /\ Plain(s)
       /\ \E i \in 1..Len(D.versions) : s' = Update(s, D.versions[i])[1] /\ hist' = Append(hist, i)
       /\ UNCHANGED <<n, first>>
Next == Write \/ Upd
Spec == Init /\ [][Next]_vars

(* After an update the label is the compiler's version, no mention of the   *)
(* old one is left unless the new one contains it, and doing it again       *)
(* changes nothing.                                                         *)
Advertises == hist # <<>> => /\ Label(s) = D.versions[hist[Len(hist)]]
                             /\ Update(s, D.versions[hist[Len(hist)]]) = <<s>>
Has(a, b) == \E i \in 1..Len(a) : At(a, i, b)
NoneLeft == Len(hist) = 1 /\ ~Has(D.versions[hist[1]], Label(first)) /\ Plain(first)
            => \/ ~Has(s, Label(first))
               \/ \E k \in 1..Len(Label(first)) - 1 :   \* (or one arose across a seam)
                     \/ SubSeq(Label(first), 1, k) = SubSeq(D.versions[hist[1]], Len(D.versions[hist[1]]) - k + 1, Len(D.versions[hist[1]]))
                     \/ SubSeq(Label(first), Len(Label(first)) - k + 1, Len(Label(first))) = SubSeq(D.versions[hist[1]], 1, k)
Emit == Plain(first) /\ (hist # <<>> \/ (n > 0 /\ Label(s) = <<>>)) =>
          PrintT("@" \o ToJson([first |-> first, hist |-> hist, s |-> IF hist = <<>> THEN 0 ELSE s]))
=============================================================================
