---------------------------- MODULE Trace_Pairs -----------------------------
(* Direction B: pairs of texts, and how the expressions they parse to       *)
(* compare: ok (both accepted), eq, qe (the other way round), ne, same (all *)
(* leaves and values).  Equal exactly when the texts without the wrapper    *)
(* are; and an expression that equals another means the same.               *)
EXTENDS CfgText, Json, TLC, IOUtils

ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(7)
VARIABLE c
Init == c = 0
Next == c = 0 /\ c' \in 1..Len(Trace)
Spec == Init /\ [][Next]_c

Good(w) ==
  IF "panic" \in DOMAIN w THEN FALSE
  ELSE w.ok = 1 => LET same == Strip(w.a) = Strip(w.b)
                   IN (w.eq = 1) = same /\ (w.qe = 1) = same /\ (w.ne = 0) = same /\ (same => w.same = 1)
Report == c > 0 => PrintT("@" \o ToJson([c |-> c, good |-> Good(Trace[c]), equal |-> Strip(Trace[c].a) = Strip(Trace[c].b)]))
=============================================================================
