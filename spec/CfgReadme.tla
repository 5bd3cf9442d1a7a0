----------------------------- MODULE CfgReadme ------------------------------
(* The readme: its old version is the label of its last link definition     *)
(* ("[label]:"); updating it replaces every mention of it.                  *)
EXTENDS CfgText, SequencesExt

At(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
RECURSIVE Last_(_, _, _)
Last_(s, p, i) == IF i < 1 THEN 0 ELSE IF At(s, i, p) THEN i ELSE Last_(s, p, i - 1)
LastOf(s, p) == Last_(s, p, Len(s))

LabelEnd(s) == LastOf(s, W_CloseLabel)
LabelStart(s) == LET e == LabelEnd(s) IN IF e = 0 THEN 0 ELSE LastOf(SubSeq(s, 1, e - 1), W_OpenBracket)
Label(s) == IF LabelStart(s) = 0 THEN <<>> ELSE SubSeq(s, LabelStart(s) + 1, LabelEnd(s) - 1)

Replace(s, old, new) ==
  FoldLeft(LAMBDA acc, i : IF acc.skip > 0 THEN [acc EXCEPT !.skip = @ - 1]
                           ELSE IF At(s, i, old) THEN [out |-> acc.out \o new, skip |-> Len(old) - 1]
                           ELSE [out |-> Append(acc.out, s[i]), skip |-> 0],
           [out |-> <<>>, skip |-> 0], [i \in 1..Len(s) |-> i]).out

(* <<>>: there is no version to replace. *)
Update(s, version) == IF Label(s) = <<>> THEN <<>> ELSE <<Replace(s, Label(s), version)>>

(* Is it plain what the last link definition is?  (No brackets or line     *)
(* breaks in its label.)                                                    *)
Plain(s) == \A c \in {93, 10, 13} : \A i \in 1..Len(Label(s)) : Label(s)[i] # c
=============================================================================
