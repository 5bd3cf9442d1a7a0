----------------------------- MODULE Trace_Text -----------------------------
(* Direction B: observations of the implementation, one per text, validated *)
(* against the machines.  Each case is one behaviour: a step per token, then*)
(* a verdict.  A case is a record                                           *)
(*   i text; t tokens; le error of the stream; after, runaway               *)
(*   ok; o; l leaves; v values; calls;  or r x n s e d sl                   *)
(* Parts: which observations a check looks at.                              *)
EXTENDS CfgGrammar, CfgError, Json, TLC, IOUtils

CONSTANT Parts
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(7)
NCases == Len(Trace)

VARIABLES c, at, ps, toks, lerr, pc
vars == <<c, at, ps, toks, lerr, pc>>

Text == Strip(Trace[c].i)

Init == c \in 1..NCases /\ at = LexStart /\ ps = PStart /\ toks = <<>> /\ lerr = <<>> /\ pc = "lex"

Token ==
  /\ pc = "lex"
  /\ LET r == LexStep(Text, at) IN
       /\ r.st = "tok"
       /\ at' = r.at
       /\ toks' = Append(toks, r.tok)
       /\ ps' = IF ps.st = "run" THEN PStep(ps, r.tok) ELSE ps
       /\ UNCHANGED <<c, lerr, pc>>
Stray ==
  /\ pc = "lex"
  /\ LET r == LexStep(Text, at) IN
       /\ r.st = "err"
       /\ at' = r.at
       /\ lerr' = <<r.err>>
       /\ ps' = IF ps.st = "run" THEN LexFail(ps, r.err) ELSE ps
       /\ pc' = "done"
       /\ UNCHANGED <<c, toks>>
End ==
  /\ pc = "lex"
  /\ LET r == LexStep(Text, at) IN
       /\ r.st = "end"
       /\ at' = r.at
       /\ ps' = IF ps.st = "run" THEN PFinish(ps, r.at.o) ELSE ps
       /\ pc' = "done"
       /\ UNCHANGED <<c, toks, lerr>>
Next == Token \/ Stray \/ End
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
W == Trace[c]       \* what was observed
Has(f) == f \in DOMAIN W
Ran == ~Has("panic")

ToksObs == [j \in 1..Len(W.t) |-> [k |-> W.t[j][1], v |-> W.t[j][2], s |-> W.t[j][3], e |-> W.t[j][4]]] \o <<>>
SameErr(e, o) == e.r = o.r /\ e.x = o.x /\ e.n = o.n /\ e.s = o.s /\ e.e = o.e

LexOk ==
  /\ ToksObs = toks
  /\ W.runaway = 0 /\ W.after = 0 /\ W.ways = 1
  /\ Len(W.le) = Len(lerr)
  /\ lerr # <<>> => SameErr(lerr[1], W.le[1]) /\ W.le[1].o = Text
     \* and, of the observed stream itself:
  /\ Tiles(Text, [toks |-> ToksObs, err |-> [j \in 1..Len(W.le) |-> [s |-> W.le[j].s, e |-> W.le[j].e]]])
AcceptOk(g) == (W.ok = 1) = (ps.st = "ok") /\ (W.ok = 1) = g.ok
LeavesOk(g) == W.ok = 1 => SameBag(W.l, LeavesOf(g.tree)) /\ SameBag(W.l, Leaves(ps.queue))
NumbersOk == ps.st = "err" /\ ps.err[1].r \in {"InvalidInteger", "InvalidHasAtomic"} => W.ok = 0
CallsOk == W.ok = 1 => W.calls = 1
BoolOk(v, m) == W.v.b = v.b /\ v.b = m.b
KleeneOk(v, m) == W.v.kt = v.kt /\ W.v.kf = v.kf /\ v.kt = m.kt /\ v.kf = m.kf
LogicOk(v, m) ==
   /\ W.v.bt = v.bt /\ W.v.bf = v.bf /\ W.v.g1 = v.g1 /\ W.v.g2 = v.g2
   /\ v.g1 = m.g1 /\ v.g2 = m.g2 /\ v.bt = m.bt /\ v.bf = m.bf
ErrOk == ps.st = "err" /\ W.ok = 0 => SameErr(ps.err[1], W)
OrigOk == W.o = Text
SpanValid == W.ok = 0 => SpanOk(Text, W) /\ W.sl = <<Slice(Text, W.s, W.e)>>
RenderOk == ps.st = "err" /\ W.ok = 0 =>
   W.d = Rendered(Text, ps.err[1]) /\ W.rd = Message(ps.err[1])
ReOk == W.ok = 1 => W.re = 1 /\ W.cl = 1 /\ W.same = 1

Verdict ==
  LET g == IF lerr = <<>> THEN Root(toks) ELSE NoTree
      both == ps.st = "ok" /\ W.ok = 1 /\ g.ok
      v == EvalQueue(ps.queue)[1]
      m == Meaning(g.tree)
      holds(x) ==
        CASE x = "lex" -> LexOk
          [] x = "accept" -> AcceptOk(g)
          [] x = "leaves" -> both => LeavesOk(g)
          [] x = "numbers" -> NumbersOk
          [] x = "calls" -> CallsOk
          [] x = "bool" -> both => BoolOk(v, m)
          [] x = "kleene" -> both => KleeneOk(v, m)
          [] x = "logic" -> both => LogicOk(v, m)
          [] x = "err" -> ErrOk
          [] x = "orig" -> OrigOk
          [] x = "span" -> SpanValid
          [] x = "render" -> RenderOk
          [] x = "re" -> ReOk
  IN [c |-> c, fail |-> IF ~Ran THEN {"panic"} ELSE {x \in Parts : ~holds(x)},
      acc |-> ps.st = "ok", exp |-> IF ps.st = "ok" THEN "ok" ELSE ToString(ps.err[1])]
Report == pc = "done" => PrintT("@" \o ToJson(Verdict))
=============================================================================
