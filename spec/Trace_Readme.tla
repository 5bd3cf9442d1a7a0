---------------------------- MODULE Trace_Readme ----------------------------
(* What the model makes of given readmes and versions.                      *)
EXTENDS CfgReadme, Json, IOUtils
ASSUME TLCSet(8, ndJsonDeserialize(IOEnv.TRACE))   \* [s, v]
Trace == TLCGet(8)
VARIABLES c, done
Init == c \in 1..Len(Trace) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, done>>
Report == done => PrintT("@" \o ToJson([c |-> c, label |-> Label(Trace[c].s), plain |-> IF Plain(Trace[c].s) THEN 1 ELSE 0,
                                        after |-> Update(Trace[c].s, Trace[c].v)]))
=============================================================================
