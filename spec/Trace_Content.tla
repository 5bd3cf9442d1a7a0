---------------------------- MODULE Trace_Content ---------------------------
(* Direction B: how the library's public values compare.  A value is known  *)
(* by its description, which says how it was made: put together by hand     *)
(* from owned or from static parts, taken from a parsed text, or found in   *)
(* the table of built-in targets.  Its content is what the description      *)
(* stands for.  For values of a kind: which others each one equals (eq),    *)
(* differs from (ne), has the hash of (hash), is less than (lt), greater    *)
(* than (gt), and the same once more for clones.                            *)
EXTENDS CfgParser, CfgTarget, Json, IOUtils

ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(7)
ASSUME TLCSet(8, JsonDeserialize(IOEnv.TARGETS))
Ts == TLCGet(8).targets

Number(t, max) == LET n == ParseUint(t, max) IN IF n = <<>> THEN t ELSE Decimal(n[1])
Canon(kind, v) == IF kind = "atomic" THEN Number(v, 65535) ELSE IF kind = "width" THEN Number(v, 255) ELSE v

LeafOf(text) == ParseText(text).queue[1].leaf
TokenOf(text) == LET t == LexAll(text).toks[1] IN <<t.k, t.v>>
ErrorOf(text) == LET e == ParseText(text).err[1] IN [o |-> Strip(text), s |-> e.s, e |-> e.e, r |-> e.r, n |-> e.n, x |-> e.x]
Bag(s) == [x \in ElemsOf(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
TargetOf(T) == [triple |-> T.triple, os |-> T.os, abi |-> T.abi, arch |-> T.arch, env |-> T.env, vendor |-> T.vendor,
                width |-> T.width, endian |-> T.endian, panic |-> T.panic,
                fam |-> Bag(T.fam), atomics |-> Bag(T.atomics)]

Content(kind, d) ==
  CASE kind = "predicate" -> IF d.c = "parsed" THEN LeafOf(d.text) ELSE <<d.k, d.n, Canon(d.k, d.v)>>
    [] kind = "target predicate" -> IF d.c = "parsed" THEN LeafOf(d.text) ELSE <<d.k, <<>>, Canon(d.k, d.v)>>
    [] kind = "token" -> IF d.c = "lexed" THEN TokenOf(d.text) ELSE <<d.k, d.v>>
    [] kind = "function" -> <<d.k, d.n>>
    [] kind = "error" -> IF d.c = "parsed" THEN ErrorOf(d.text)
                         ELSE [o |-> d.o, s |-> d.s, e |-> d.e, r |-> d.r, n |-> d.n, x |-> d.x]
    [] kind = "expression" -> Strip(d.text)
    [] kind = "number error" -> d.text
    [] kind = "target" -> IF d.c = "builtin" THEN TargetOf(Ts[Scan(Ts, d.triple)]) ELSE TargetOf(d.t)

ASSUME TLCSet(9, LET t == Trace IN TLCEval([i \in 1..Len(t) |-> Content(t[i].kind, t[i].d)]))
ASSUME TLCSet(10, LET t == Trace IN TLCEval([i \in 1..Len(t) |-> Len(t[i].lt)]))
C(i) == TLCGet(9)[i]
Below(i) == TLCGet(10)[i]      \* how many it is less than: its place, counted from the top

VARIABLE l
Init == l = 0
Next == l = 0 /\ l' \in 1..Len(Trace)
Spec == Init /\ [][Next]_l

Failures(i) ==
  LET w == Trace[i]
      All == w.first..w.last
      same == {j \in All : C(j) = C(i)}
      set(s) == ElemsOf(s)
      ordered == w.ordered = 1
  IN (IF set(w.eq) = same THEN {} ELSE {"equal"})
     \cup (IF set(w.ne) = All \ same THEN {} ELSE {"different"})
     \cup (IF set(w.ceq) = same THEN {} ELSE {"clones"})
     \cup (IF w.hashed = 0 \/ same \subseteq set(w.hash) THEN {} ELSE {"hash"})
     \cup (IF ~ordered \/ ( /\ set(w.lt) \cap set(w.gt) = {}
                            /\ set(w.lt) \cup set(w.gt) = All \ same
                            /\ set(w.plt) = set(w.lt) /\ set(w.pgt) = set(w.gt)
                            /\ \A j \in same : Below(j) = Below(i)
                            /\ \A j \in set(w.lt) : Below(j) < Below(i)
                            /\ \A j \in set(w.gt) : Below(j) > Below(i))
           THEN {} ELSE {"order"})
Report == l > 0 => PrintT("@" \o ToJson([l |-> l, fail |-> Failures(l),
            same |-> Cardinality({j \in Trace[l].first..Trace[l].last : C(j) = C(l)})]))
=============================================================================
