------------------------------ MODULE CfgLexer ------------------------------
(* The token stream of a (stripped) text.  A lexer position p is a record   *)
(* [i, o]: the 1-based index of the next character and its byte offset.     *)
(* LexStep(t, p) is one request for the next token:                         *)
(*    [st |-> "tok", tok |-> token, at |-> position after it]               *)
(*    [st |-> "err", err |-> error, at |-> position at the end of the text] *)
(*    [st |-> "end"]                                                        *)
(* A token is [k, v, s, e]: kind, its text (keys and values), byte range.   *)
EXTENDS CfgText

LexStart == [i |-> 1, o |-> 0]
Adv(t, p) == [i |-> p.i + 1, o |-> p.o + Utf8Len(t[p.i])]

RECURSIVE SkipWs(_, _)
SkipWs(t, p) == IF p.i <= Len(t) /\ IsWs(t[p.i]) THEN SkipWs(t, Adv(t, p)) ELSE p

RECURSIVE ScanId(_, _)
ScanId(t, p) == IF p.i <= Len(t) /\ IsIdRest(t[p.i]) THEN ScanId(t, Adv(t, p)) ELSE p

RECURSIVE ScanQuote(_, _)
ScanQuote(t, p) == IF p.i <= Len(t) /\ t[p.i] # 34 THEN ScanQuote(t, Adv(t, p)) ELSE p

RECURSIVE ToEnd(_, _)
ToEnd(t, p) == IF p.i <= Len(t) THEN ToEnd(t, Adv(t, p)) ELSE p

KwAll == W_all
KwAny == W_any
KwNot == W_not
ExpectStart == <<"<key>", "all", "any", "not">>

Err(r, x, s, e) == [r |-> r, x |-> x, n |-> 0, s |-> s, e |-> e]

LOCAL Got(k, v, p, q) == [st |-> "tok", tok |-> [k |-> k, v |-> v, s |-> p.o, e |-> q.o], at |-> q]
LOCAL Bad(t, err) == [st |-> "err", err |-> err, at |-> ToEnd(t, LexStart)]

LexStep(t, p0) ==
  LET p == SkipWs(t, p0) IN
  IF p.i > Len(t) THEN [st |-> "end", at |-> p]
  ELSE LET c == t[p.i]
           n == Adv(t, p)
       IN CASE c = 61 -> Got("eq", <<>>, p, n)
            [] c = 40 -> Got("open", <<>>, p, n)
            [] c = 41 -> Got("close", <<>>, p, n)
            [] c = 44 -> Got("comma", <<>>, p, n)
            [] c = 34 -> LET q == ScanQuote(t, n)
                         IN IF q.i > Len(t)
                            THEN Bad(t, Err("UnclosedQuotes", <<>>, p.o, q.o))
                            ELSE Got("val", SubSeq(t, p.i + 1, q.i - 1), p, Adv(t, q))
            [] IsIdStart(c) -> LET q == ScanId(t, n)
                                   w == SubSeq(t, p.i, q.i - 1)
                               IN CASE w = KwAll -> Got("all", <<>>, p, q)
                                    [] w = KwAny -> Got("any", <<>>, p, q)
                                    [] w = KwNot -> Got("not", <<>>, p, q)
                                    [] OTHER -> Got("key", w, p, q)
            [] OTHER -> Bad(t, Err("Unexpected", ExpectStart, p.o, n.o))

(* The whole stream: all tokens, and the error that ended it (or none). *)
RECURSIVE LexFrom(_, _, _)
LexFrom(t, p, acc) ==
  LET r == LexStep(t, p) IN
  CASE r.st = "tok" -> LexFrom(t, r.at, Append(acc, r.tok))
    [] r.st = "err" -> [toks |-> acc, err |-> <<r.err>>]
    [] r.st = "end" -> [toks |-> acc, err |-> <<>>]
LexAll(t) == LexFrom(t, LexStart, <<>>)

---------------------------------------------------------------------------
(* What every token stream must satisfy, stated without the scanner.        *)
RECURSIVE IdxAt(_, _, _, _)
IdxAt(t, i, o, b) == IF o >= b THEN i ELSE IdxAt(t, i + 1, o + Utf8Len(t[i]), b)
Slice(t, s, e) == SubSeq(t, IdxAt(t, 1, 0, s), IdxAt(t, 1, 0, e) - 1)

TokenText(tok) ==
  CASE tok.k = "eq" -> <<61>> [] tok.k = "open" -> <<40>> [] tok.k = "close" -> <<41>>
    [] tok.k = "comma" -> <<44>> [] tok.k = "all" -> KwAll [] tok.k = "any" -> KwAny
    [] tok.k = "not" -> KwNot [] tok.k = "key" -> tok.v
    [] tok.k = "val" -> <<34>> \o tok.v \o <<34>>

Word(k) == k \in {"key", "all", "any", "not"}

(* Does the text consist, from position p on, of tokens T[j..] with only    *)
(* whitespace between them?  Result: the position after the last one.       *)
RECURSIVE TileFrom(_, _, _, _)
TileFrom(t, T, j, p0) ==
  LET p == SkipWs(t, p0) IN
  IF j > Len(T) THEN [ok |-> TRUE, p |-> p]
  ELSE LET x == TokenText(T[j])
           n == p.i + Len(x)      \* index after the token
       IN IF /\ T[j].s = p.o
             /\ T[j].e = p.o + ByteLen(x)
             /\ n <= Len(t) + 1
             /\ SubSeq(t, p.i, n - 1) = x
             \* words are maximal, values hold no quote, keywords are not keys
             /\ Word(T[j].k) => n > Len(t) \/ ~IsIdRest(t[n])
             /\ T[j].k = "val" => \A m \in 1..Len(T[j].v) : T[j].v[m] # 34
             /\ T[j].k = "key" => /\ T[j].v \notin {KwAll, KwAny, KwNot}
                                 /\ IsIdStart(T[j].v[1])
                                 /\ \A m \in 1..Len(T[j].v) : IsIdRest(T[j].v[m])
          THEN TileFrom(t, T, j + 1, [i |-> n, o |-> T[j].e])
          ELSE [ok |-> FALSE, p |-> p]

Tiles(t, lx) ==
  LET r == TileFrom(t, lx.toks, 1, LexStart) IN
  /\ r.ok
  /\ IF lx.err = <<>> THEN r.p.i > Len(t)      \* everything is covered
     ELSE /\ r.p.i <= Len(t)                    \* or the rest starts with no token
          /\ lx.err[1].s = r.p.o
          /\ LET c == t[r.p.i]
             IN IF c = 34
                THEN /\ \A m \in r.p.i + 1 .. Len(t) : t[m] # 34
                     /\ lx.err[1].e = ByteLen(t)
                ELSE /\ ~IsIdStart(c) /\ c \notin {61, 40, 41, 44}
                     /\ lx.err[1].e = r.p.o + Utf8Len(c)
=============================================================================
