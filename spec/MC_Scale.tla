------------------------------ MODULE MC_Scale ------------------------------
(* Scale.  Families of texts pre u^k mid w^k post with a closed form of the *)
(* outcome: a recurrence of the value (carried along k in the state), the   *)
(* bag of leaves, or an error with linear span.  The machine is run on the  *)
(* text itself up to MachineMax and must agree with the closed form; the    *)
(* closed form is emitted for every checkpoint, far beyond what the machine *)
(* (or any enumeration) could reach.                                        *)
EXTENDS CfgGrammar, CfgError, CfgScaleData, Json, TLC, SequencesExt

CONSTANTS MachineMax,
          MaxK,         \* how far the checkpoints go
          FarK          \* and for families without a value to carry
(* sizes; between far ones the recurrence is run in chunks *)
Checkpoints == <<
  0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29,
  30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56,
  57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 95, 96, 97, 100, 120, 121, 122, 123, 124, 125, 126,
  127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 190, 191, 192, 193, 248, 249, 250, 251, 252, 253, 254, 255,
  256, 257, 258, 259, 260, 261, 300, 384, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513,
  514, 515, 516, 517, 518, 519, 520, 700, 767, 768, 769, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027,
  1028, 2046, 2047, 2048, 2049, 2050, 4093, 4094, 4095, 4096, 4097, 4098, 4099, 8000, 8190, 8191, 8192, 8193,
  8194, 16000, 16382, 16383, 16384, 16385, 16386, 24000, 32765, 32766, 32767, 32768, 32769, 32770, 40000,
  50000, 60000, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 65539, 70000, 80000, 90000, 100000, 110000,
  120000, 130000, 131071, 131072, 131073, 140000, 150000, 160000, 170000, 180000, 190000, 200000, 210000,
  220000, 230000, 240000, 250000, 262144, 524288, 1048576, 2097152 >>
VARIABLES f, j, val
vars == <<f, j, val>>

K == Checkpoints[j]
L(c) == LeafVal(<<"flag", <<c>>, <<>>>>)
A == L(97)
B == L(98)
C == L(99)
D == L(100)

(* the value at k = 0 of the iterated part, one step of it, and what is     *)
(* built around it                                                          *)
NestFamilies == {"nestNot", "nestAll", "nestAny", "nestMix", "nestMixRev", "nestFns", "nestWrapped", "nestTwo"}
WideFamilies == {"wideAll", "wideAny", "wideFns", "wideEmpty", "wideFnLeaf", "wideLeafFn", "wideMix",
                 "wideInner", "wideInner2", "wideKv"}
LongFamilies == {"longKey", "longVal", "longWs", "longPair", "zeros", "farWs", "farVal", "farList", "farNest"}
KE == LeafVal(<<"kv", <<107>>, <<233>>>>)

Start(x) ==
  CASE x \in {"nestNot", "nestAll", "nestMix", "nestMixRev", "nestFns", "nestTwo"} -> A
    [] x = "nestAny" -> B
    [] x = "nestWrapped" -> C
    [] x \in {"wideAll", "wideFns", "wideMix"} -> VTop
    [] x \in {"wideAny", "wideEmpty"} -> VBot
    [] x = "wideFnLeaf" -> B
    [] x = "wideLeafFn" -> VOr(B, C)
    [] x = "wideInner" -> VTop
    [] x = "wideInner2" -> A
    [] x = "wideKv" -> A
    [] OTHER -> VTop
OneStep(x, v) ==
  CASE x \in {"nestNot", "nestTwo"} -> VNot(v)
    [] x = "nestMix" -> VAnd(B, VOr(C, VNot(v)))
    [] x = "nestMixRev" -> VOr(VAnd(v, B), VNot(C))
    [] x = "nestFns" -> VOr(VOr(v, D), B)
    [] x = "wideAll" -> VAnd(A, v)
    [] x = "wideAny" -> VOr(B, v)
    [] x = "wideFns" -> VAnd(VOr(A, B), v)
    [] x = "wideEmpty" -> VOr(VTop, v)
    [] x = "wideFnLeaf" -> VOr(VNot(A), v)
    [] x = "wideLeafFn" -> VAnd(A, v)
    [] x = "wideMix" -> VAnd(VAnd(VNot(VNot(C)), D), v)
    [] x = "wideInner" -> VAnd(VBot, v)
    [] x = "wideInner2" -> VOr(VAnd(C, D), v)
    [] x = "wideKv" -> VOr(KE, v)
    [] OTHER -> v
Iter(x, v, n) == FoldLeft(LAMBDA acc, i : OneStep(x, acc), v, [i \in 1..n |-> i])
Around(x, v) ==
  CASE x = "nestTwo" -> VAnd(VAnd(v, B), VNot(C))
    [] x = "wideMix" -> VNot(v)
    [] x = "wideInner" -> VOr(v, B)
    [] x = "wideInner2" -> VAnd(VAnd(B, VNot(v)), C)
    [] OTHER -> v

Init == f \in Families /\ j = 1 /\ val = Iter(f, Start(f), Checkpoints[1])
Next == /\ j < Len(Checkpoints) /\ Checkpoints[j + 1] <= (IF f \in NestFamilies \cup WideFamilies THEN MaxK ELSE FarK)
        /\ j' = j + 1
        /\ val' = Iter(f, val, Checkpoints[j + 1] - K)
        /\ UNCHANGED f
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Leaves as a bag: <<leaf, count>>; texts in leaves as runs <<c, count>>.  *)
Fl(c) == <<"flag", <<<<c, 1>>>>, <<>>>>
Run(t) == [i \in 1..Len(t) |-> <<t[i], 1>>]
Far ==      \* leaves of every kind, once each
  LET one(kind, name, value) == <<<<kind, Run(name), Run(value)>>, 1>> IN
  << one("family", <<>>, W_unix), one("family", <<>>, W_windows), one("test", <<>>, <<>>), one("debug", <<>>, <<>>),
     one("procmacro", <<>>, <<>>), one("feature", <<>>, <<102, 105>>), one("panic", <<>>, <<112>>), one("os", <<>>, <<111>>),
     one("arch", <<>>, <<233>>), one("family", <<>>, <<121>>), one("env", <<>>, <<101>>), one("abi", <<>>, <<105>>),
     one("vendor", <<>>, <<119>>), one("tfeature", <<>>, <<116>>), one("endian", <<>>, W_big), one("atomic", <<>>, <<56>>),
     one("atomic", <<>>, W_ptr), one("width", <<>>, <<54, 52>>), one("kv", <<107, 101, 121>>, <<118>>),
     one("flag", <<102, 108, 97, 103>>, <<>>) >>
Bag ==
  CASE f \in {"farWs", "farNest"} -> Far
    [] f = "farVal" -> Append(Far, <<<<"kv", <<<<109, 1>>>>, <<<<233, K>>>>>>, 1>>)
    [] f = "farList" -> Append(Far, <<Fl(98), K>>)
    [] f \in {"nestNot", "nestAll"} -> <<<<Fl(97), 1>>>>
    [] f = "nestAny" -> <<<<Fl(98), 1>>>>
    [] f = "nestWrapped" -> <<<<Fl(99), 1>>>>
    [] f = "nestMix" -> <<<<Fl(97), 1>>, <<Fl(98), K>>, <<Fl(99), K>>>>
    [] f = "nestMixRev" -> <<<<Fl(97), 1>>, <<Fl(98), K>>, <<Fl(99), K>>>>
    [] f = "nestFns" -> <<<<Fl(97), 1>>, <<Fl(98), K>>, <<Fl(100), K>>>>
    [] f = "nestTwo" -> <<<<Fl(97), 1>>, <<Fl(98), 1>>, <<Fl(99), 1>>>>
    [] f = "wideAll" -> <<<<Fl(97), K>>>>
    [] f = "wideAny" -> <<<<Fl(98), K>>>>
    [] f = "wideFns" -> <<<<Fl(97), K>>, <<Fl(98), K>>>>
    [] f = "wideEmpty" -> <<>>
    [] f = "wideFnLeaf" -> <<<<Fl(97), K>>, <<Fl(98), 1>>>>
    [] f = "wideLeafFn" -> <<<<Fl(97), K>>, <<Fl(98), 1>>, <<Fl(99), 1>>>>
    [] f = "wideMix" -> <<<<Fl(99), K>>, <<Fl(100), K>>>>
    [] f = "wideInner" -> <<<<Fl(98), 1>>>>
    [] f = "wideInner2" -> <<<<Fl(97), 1>>, <<Fl(98), 1>>, <<Fl(99), K + 1>>, <<Fl(100), K>>>>
    [] f = "wideKv" -> <<<<Fl(97), 1>>, <<<<"kv", <<<<107, 1>>>>, <<<<233, 1>>>>>>, K>>>>
    [] f = "longKey" -> <<<<<<"flag", <<<<120, 1>>, <<107, K>>>>, <<>>>>, 1>>>>
    [] f = "longVal" -> <<<<<<"feature", <<>>, <<<<233, K>>>>>>, 1>>>>
    [] f = "longWs" -> <<<<Fl(97), 1>>>>
    [] f = "longPair" -> <<<<Fl(98), 1>>, <<<<"kv", <<<<107, K>>>>, <<<<40, K>>>>>>, 1>>>>
    [] f = "zeros" -> <<<<<<"atomic", <<>>, <<<<56, 1>>>>>>, 1>>>>

(* errors: [r, x, n, s, e] *)
E5(r, x, n, s, e) == [r |-> r, x |-> x, n |-> n, s |-> s, e |-> e]
Failure ==
  CASE f = "unclosed" -> E5("UnclosedParens", <<>>, 0, 4 * K - 1, 4 * K)
    [] f = "unclosedVal" -> E5("UnclosedParens", <<>>, 0, 3, 9 + 2 * K)
    [] f = "closes" -> E5("UnopenedParens", <<>>, 0, 1, 2)
    [] f = "nestClose" -> E5("UnopenedParens", <<>>, 0, 5 * K + 1, 5 * K + 2)
    [] f = "notMany" -> E5("InvalidNot", <<>>, K + 1, 0, 2 * K + 6)
    [] f = "notManyFns" -> E5("InvalidNot", <<>>, K + 1, 4, 14 + 6 * K)
    [] f = "quote" -> E5("UnclosedQuotes", <<>>, 0, 8, 9 + 3 * K)
    [] f = "roots" -> E5("MultipleRootPredicates", <<>>, 0, 0, 2 * K + 1)
    [] f = "rootsFns" -> E5("MultipleRootPredicates", <<>>, 0, 0, 2 + 6 * K)
    [] f = "stray" -> E5("Unexpected", ExpectStart, 0, 3 * K, 3 * K + 2)
    [] f = "doubleComma" -> E5("Unexpected", Expected("comma"), 0, 6 + 2 * K, 7 + 2 * K)
    [] f = "badInt" -> E5("InvalidInteger", <<>>, 0, 22, 22 + K)
    [] f = "badAtomic" -> E5("InvalidHasAtomic", <<>>, 0, 25, 25 + K)
    [] f = "eqEnd" -> E5("Unexpected", <<"\"<value>\"">>, 0, 4 * K + 2, 4 * K + 2)
    [] f = "fnEnd" -> E5("Unexpected", <<"(">>, 0, 4 * K, 4 * K + 3)
    [] f = "opens" -> E5("Unexpected", Expected("open"), 0, 4, 5)
    [] f = "commas" -> E5("Unexpected", ExpectStart, 0, 0, 1)
    [] f = "blanks" -> E5("Empty", <<>>, 0, 0, 2 * K)
    [] f = "eqs" -> E5("Unexpected", Expected("eq"), 0, 2, 3)
    [] f = "unknownKey" -> E5("Unexpected", ExpectTarget, 0, 0, 7 + K)
    [] f = "deepNot" -> E5("InvalidNot", <<>>, 0, 6 * K, 6 * K + 5)
    [] f = "farWidth" -> E5("InvalidInteger", <<>>, 0, 26 + 2 * K, 27 + 2 * K)
    [] f = "farTarget" -> E5("Unexpected", ExpectTarget, 0, 4 + 2 * K, 12 + 2 * K)
    [] f = "farBare" -> E5("Unexpected", <<>>, 0, 6 + 3 * K, 7 + 3 * K)
    [] f = "farFeature" -> E5("Unexpected", <<"= \"<feature_name>\"">>, 0, 4 * K, 4 * K + 7)
    [] f = "farEmpty" -> E5("Unexpected", <<"<feature>">>, 0, 25 + 2 * K, 25 + 2 * K)
    [] f = "farNot" -> E5("InvalidNot", <<>>, 0, 4 + 2 * K, 9 + 2 * K)
    [] f = "farQuote" -> E5("UnclosedQuotes", <<>>, 0, 6 + 2 * K, 8 + 2 * K)
    [] f = "farOpen" -> E5("UnclosedParens", <<>>, 0, 7 + 2 * K, 9 + 2 * K)
    [] f = "words" -> E5("Unexpected", Expected("key"), 0, 2, 3)
FromK ==      \* the closed form holds from here on
  CASE f \in {"unclosed", "closes", "notMany", "notManyFns", "roots", "rootsFns", "commas", "longPair", "unknownKey"} -> 1
    [] f \in {"opens", "eqs", "words"} -> 2
    [] f = "badInt" -> 4
    [] f = "badAtomic" -> 6
    [] OTHER -> 0

Accepted == f \in NestFamilies \cup WideFamilies \cup LongFamilies
Valued == f \in NestFamilies \cup WideFamilies

RECURSIVE RepSeq(_, _)
RepSeq(s, n) == IF n = 0 THEN <<>> ELSE IF n % 2 = 1 THEN s \o RepSeq(s, n - 1)
                ELSE LET h == RepSeq(s, n \div 2) IN h \o h
Text == LET p == Parts(f) IN p[1] \o RepSeq(p[2], K) \o p[3] \o RepSeq(p[4], K) \o p[5]
TextBytes == LET p == Parts(f)
             IN ByteLen(Strip(p[1] \o p[3] \o p[5])) + K * (ByteLen(p[2]) + ByteLen(p[4]))
(* the length in bytes of the rendered error *)
RenderedLen ==
  LET e == Failure IN
  TextBytes + 2 + e.s + (IF e.r \in {"UnclosedParens", "UnclosedQuotes", "UnopenedParens"} THEN 1 ELSE e.e - e.s)
  + Len(Message(e))

Emit ==
  K >= FromK =>
  PrintT("@" \o ToJson(
    IF Accepted
    THEN [f |-> f, k |-> K, parts |-> Parts(f), ok |-> 1, bag |-> Bag, tb |-> TextBytes,
          v |-> IF Valued THEN <<Around(f, val)>> ELSE <<>>]
    ELSE [f |-> f, k |-> K, parts |-> Parts(f), ok |-> 0, err |-> Failure, tb |-> TextBytes, dl |-> RenderedLen]))

RECURSIVE Unrle(_)
Unrle(r) == IF r = <<>> THEN <<>> ELSE RepSeq(<<r[1][1]>>, r[1][2]) \o Unrle(Tail(r))
Plain(leaf) == <<leaf[1], Unrle(leaf[2]), Unrle(leaf[3])>>
RECURSIVE SumBag(_, _)
SumBag(b, i) == IF i = 0 THEN 0 ELSE b[i][2] + SumBag(b, i - 1)

(* The machine agrees with the closed form. *)
MachineAt == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 31, 64, 127, 128, 254, 255, 256, 257, 300}
ClosedForm ==
  K >= FromK /\ K <= MachineMax /\ K \in MachineAt =>
    LET o == ParseText(Text) IN
    /\ TextBytes = ByteLen(Strip(Text))
    /\ IF Accepted
       THEN /\ o.st = "ok"
            /\ Valued => EvalQueue(o.queue) = <<Around(f, val)>>
            /\ LET ls == Leaves(o.queue) IN
               /\ SumBag(Bag, Len(Bag)) = Len(ls)
               /\ \A i \in 1..Len(Bag) : Count(ls, Plain(Bag[i][1])) = Bag[i][2]
       ELSE /\ o.st = "err"
            /\ o.err[1] = Failure
            /\ SpanOk(Strip(Text), o.err[1])
            /\ K <= 16 => ByteLen(Rendered(Strip(Text), o.err[1])) = RenderedLen
=============================================================================
