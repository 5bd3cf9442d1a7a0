------------------------------- MODULE MC_Long ------------------------------
(* Token streams of texts whose parts are long.  A text is a sequence of up *)
(* to three segments, each a piece repeated K times between fixed ends.     *)
(* Its tokens are stated in closed form, as groups <<start, stride, count,  *)
(* shape>>: the shape repeated count times, stride bytes apart.  Up to      *)
(* MachineMax the lexer is run on the text itself and must agree.           *)
EXTENDS CfgLexer, Json, TLC, SequencesExt

CONSTANTS Ks, FarKs,     \* sizes, for up to three segments and for up to two
          MachineMax
VARIABLES segs, k
vars == <<segs, k>>

(* <<kind, offset, length>> *)
T(kind, off, len) == <<kind, off, len>>
Seg(n, K) ==      \* [parts, bytes, groups (relative), word at the start, at the end, what ends the stream]
  LET seg(parts, bytes, groups, sw, ew, fin) == [parts |-> parts, bytes |-> bytes, groups |-> groups, sw |-> sw, ew |-> ew, fin |-> fin]
  IN CASE n = 1 -> seg(<<<<<<120>>, 1>>, <<<<57, 95>>, K>>>>, 1 + 2 * K, <<<<0, 0, 1, <<T("key", 0, 1 + 2 * K)>>>>>>, TRUE, TRUE, <<>>)
       [] n = 2 -> seg(<<<<W_not, K>>>>, 3 * K, <<<<0, 0, 1, <<T(IF K = 1 THEN "not" ELSE "key", 0, 3 * K)>>>>>>, TRUE, TRUE, <<>>)
       [] n = 3 -> seg(<<<<<<34>>, 1>>, <<<<118, 32>>, K>>, <<<<34>>, 1>>>>, 2 * K + 2, <<<<0, 0, 1, <<T("val", 0, 2 * K + 2)>>>>>>, FALSE, FALSE, <<>>)
       [] n = 4 -> seg(<<<<<<34>>, 1>>, <<<<233, 40, 128512>>, K>>, <<<<34>>, 1>>>>, 7 * K + 2, <<<<0, 0, 1, <<T("val", 0, 7 * K + 2)>>>>>>, FALSE, FALSE, <<>>)
       [] n = 5 -> seg(<<<<<<32>>, K>>>>, K, <<>>, FALSE, FALSE, <<>>)
       [] n = 6 -> seg(<<<<<<12288, 9, 133>>, K>>>>, 6 * K, <<>>, FALSE, FALSE, <<>>)
       [] n = 7 -> seg(<<<<<<44>>, K>>>>, K, <<<<0, 1, K, <<T("comma", 0, 1)>>>>>>, FALSE, FALSE, <<>>)
       [] n = 8 -> seg(<<<<<<97, 32>>, K>>>>, 2 * K, <<<<0, 2, K, <<T("key", 0, 1)>>>>>>, TRUE, FALSE, <<>>)
       [] n = 9 -> seg(<<<<W_all \o <<40>>, K>>>>, 4 * K, <<<<0, 4, K, <<T("all", 0, 3), T("open", 3, 1)>>>>>>, TRUE, FALSE, <<>>)
       [] n = 10 -> seg(<<<<<<107, 61, 34, 233, 34, 41>>, K>>>>, 7 * K, <<<<0, 7, K, <<T("key", 0, 1), T("eq", 1, 1), T("val", 2, 4), T("close", 6, 1)>>>>>>, TRUE, FALSE, <<>>)
       [] n = 11 -> seg(<<<<<<34, 34>>, K>>>>, 2 * K, <<<<0, 2, K, <<T("val", 0, 2)>>>>>>, FALSE, FALSE, <<>>)
       [] n = 12 -> seg(<<<<W_any, 1>>, <<<<8232>>, K>>, <<W_any, 1>>>>, 6 + 3 * K, <<<<0, 3 + 3 * K, 2, <<T("any", 0, 3)>>>>>>, TRUE, TRUE, <<>>)
       [] n = 13 -> seg(<<<<<<59, 97>>, K>>>>, 2 * K, <<>>, FALSE, TRUE, <<Err("Unexpected", ExpectStart, 0, 1)>>)
       [] n = 14 -> seg(<<<<<<34>>, 1>>, <<<<233, 41>>, K>>>>, 3 * K + 1, <<>>, FALSE, FALSE, <<Err("UnclosedQuotes", <<>>, 0, 3 * K + 1)>>)
       [] n = 15 -> seg(<<<<<<26085, 44>>, K>>>>, 4 * K, <<>>, FALSE, FALSE, <<Err("Unexpected", ExpectStart, 0, 3)>>)
Kinds == 1..15

Init == segs = <<>> /\ k = 0
Fits(s, n) == IF s = <<>> THEN TRUE ELSE LET a == Seg(s[Len(s)], 2) b == Seg(n, 2) IN a.fin = <<>> /\ ~(a.ew /\ b.sw)
Next == \/ k = 0 /\ Len(segs) < 3 /\ (\E n \in Kinds : Fits(segs, n) /\ segs' = Append(segs, n)) /\ UNCHANGED k
        \/ k = 0 /\ segs # <<>> /\ k' \in (IF Len(segs) < 3 THEN Ks \cup FarKs ELSE Ks) /\ UNCHANGED segs
Spec == Init /\ [][Next]_vars

At(i) == FoldLeft(LAMBDA o, j : o + Seg(segs[j], k).bytes, 0, [j \in 1..i - 1 |-> j])
Shift(g, o) == <<g[1] + o, g[2], g[3], g[4]>>
Groups == FoldLeft(LAMBDA acc, i : acc \o [j \in 1..Len(Seg(segs[i], k).groups) |-> Shift(Seg(segs[i], k).groups[j], At(i))],
                   <<>>, [i \in 1..Len(segs) |-> i])
Fin == LET n == Len(segs)
           f == Seg(segs[n], k).fin
       IN IF f = <<>> THEN <<>> ELSE <<[f[1] EXCEPT !.s = @ + At(n), !.e = @ + At(n)]>>
Parts == FoldLeft(LAMBDA acc, i : acc \o Seg(segs[i], k).parts, <<>>, [i \in 1..Len(segs) |-> i])

Emit == k > 0 => PrintT("@" \o ToJson([p |-> Parts, g |-> Groups, f |-> Fin]))

Text == FoldLeft(LAMBDA acc, p : acc \o FlattenSeq([i \in 1..p[2] |-> p[1]]), <<>>, Parts)
Unfold == FoldLeft(LAMBDA acc, g : acc \o FlattenSeq([r \in 1..g[3] |->
                     [j \in 1..Len(g[4]) |-> <<g[4][j][1], g[1] + (r - 1) * g[2] + g[4][j][2], g[1] + (r - 1) * g[2] + g[4][j][2] + g[4][j][3]>>]]),
                   <<>>, Groups)
ClosedForm ==
  k > 0 /\ k <= MachineMax =>
    LET t == Text
        l == LexAll(Strip(t))
    IN /\ Strip(t) = t
       /\ [i \in 1..Len(l.toks) |-> <<l.toks[i].k, l.toks[i].s, l.toks[i].e>>] = Unfold
       /\ l.err = Fin
       /\ k <= 3 => Tiles(t, l)
=============================================================================
