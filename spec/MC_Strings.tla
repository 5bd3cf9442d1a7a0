----------------------------- MODULE MC_Strings -----------------------------
(* Direction A for raw text: all concatenations of up to MaxLen pieces,     *)
(* chosen to be hostile to a scanner.  Every text is emitted with its token *)
(* stream and its parse.                                                    *)
EXTENDS CfgGrammar, CfgError, Json, TLC

CONSTANTS MaxLen, Pieces, Render, EmitLex, EmitParse
VARIABLES raw, n

(* pieces by name, so that a configuration can choose among them *)
Piece(p) ==
  CASE p = "all" -> W_all [] p = "any" -> W_any [] p = "not" -> W_not [] p = "cfg" -> W_cfg
    [] p = "a" -> <<97>> [] p = "l" -> <<108>> [] p = "1" -> <<49>> [] p = "_" -> <<95>> [] p = "Z" -> <<90>>
    [] p = "(" -> <<40>> [] p = ")" -> <<41>> [] p = "," -> <<44>> [] p = "=" -> <<61>> [] p = "q" -> <<34>>
    [] p = "sp" -> <<32>> [] p = "ideo" -> <<12288>> [] p = "nel" -> <<133>> [] p = "zwsp" -> <<8203>>
    [] p = "e'" -> <<233>> [] p = "eur" -> <<8364>> [] p = "emoji" -> <<128512>> [] p = "nul" -> <<0>>
    [] p = "-" -> <<45>> [] p = "arab" -> <<1635>> [] p = "ls" -> <<8232>> [] p = "us" -> <<31>>
    [] p = "unix" -> W_unix [] p = "feature" -> W_feature [] p = "tab" -> <<9>> [] p = "vt" -> <<11>>
    [] p = "nbsp" -> <<160>> [] p = "hair" -> <<8202>> [] p = "fw" -> <<65345>>

Init == raw = <<>> /\ n = 0
Next == n < MaxLen /\ n' = n + 1 /\ \E p \in Pieces : raw' = raw \o Piece(p)
Spec == Init /\ [][Next]_<<raw, n>>

Text == Strip(raw)
LexPart ==
  LET lx == LexAll(Text) IN
  [t |-> [j \in 1..Len(lx.toks) |-> <<lx.toks[j].k, lx.toks[j].v, lx.toks[j].s, lx.toks[j].e>>] \o <<>>,
   le |-> lx.err]
ParsePart(o) ==
  IF o.st = "err"
  THEN [ok |-> 0, r |-> o.err[1].r, x |-> o.err[1].x, n |-> o.err[1].n, s |-> o.err[1].s,
        e |-> o.err[1].e, d |-> IF Render THEN Rendered(Text, o.err[1]) ELSE <<>>, o |-> Text]
  ELSE [ok |-> 1, l |-> Leaves(o.queue), v |-> EvalQueue(o.queue)[1], o |-> Text]
Emit ==
  LET o == ParseText(raw) IN
  PrintT("@" \o ToJson([i |-> raw, p |-> IF EmitParse THEN ParsePart(o) ELSE <<>>,
                        l |-> IF EmitLex THEN LexPart ELSE <<>>]))

TilesText == Tiles(Text, LexAll(Text))
AcceptsGrammar == (ParseText(raw).st = "ok") = TextInLanguage(raw)
SpansUsable == LET o == ParseText(raw) IN o.st = "err" => SpanOk(Text, o.err[1])
=============================================================================
