---------------------------- MODULE Trace_Update ----------------------------
(* Recorded runs of the real updater: what the compiler and the formatter   *)
(* were asked and what they saw of the two files, how it ended and what it  *)
(* left.  A run is one of the model's behaviours or it is not reported.     *)
EXTENDS CfgUpdate, Json, IOUtils
ASSUME TLCSet(8, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(8)

VARIABLES c, l     \* the run, its next event
tvars == <<vars, c, l>>
Events == Trace[c].events
SetOf(s) == {s[i] : i \in 1..Len(s)}

Init == /\ c \in 1..Len(Trace) /\ l = 1 /\ Begin
        /\ plan = [n |-> Trace[c].plan.n, bad |-> SetOf(Trace[c].plan.bad), unseen |-> SetOf(Trace[c].plan.unseen),
                   readme |-> Trace[c].plan.readme, write |-> Trace[c].plan.write, format |-> Trace[c].plan.format,
                   rewrite |-> Trace[c].plan.rewrite]

See(q) == /\ l <= Len(Events) /\ Events[l].q = q /\ Events[l].table = table /\ Events[l].readme = readme
          /\ l' = l + 1
Hidden == l' = l
(* Asked again: the compiler may be, as long as everything is still as it was. *)
Again == /\ Running /\ main \in {"start", "gather", "write"} /\ ~Written /\ l <= Len(Events) /\ Events[l].q \in asked
         /\ See(Events[l].q) /\ UNCHANGED vars
(* An answer that is one comes at once: it is seen by nobody, and whatever  *)
(* is possible without it is possible with it.                              *)
Pending == {q \in asked \ answered : q \notin plan.bad}
NextSeen == IF l <= Len(Events) THEN {Events[l].q} \cap Queries ELSE {}
Next ==
  /\ IF Pending # {} THEN (\E q \in Pending : WellAnswered(q)) /\ Hidden
     ELSE \/ \E q \in NextSeen \ plan.unseen : Ask(q) /\ See(q)
          \/ \E q \in plan.unseen : Ask(q) /\ Hidden
          \/ Again
          \/ Format /\ (IF plan.format = "unseen" THEN Hidden ELSE See("fmt"))
          \/ /\ \/ \E q \in plan.bad : WorkerFails(q)
                \/ VersionFails \/ ReadReadme \/ GiveUp \/ Gathered \/ WriteTable \/ WriteReadme
             /\ Hidden
  /\ UNCHANGED c
Spec == Init /\ [][Next]_tvars
Accepted == /\ exit # "none" /\ l = Len(Events) + 1 /\ Trace[c].exit = exit
            /\ Trace[c].table = table /\ Trace[c].readme = readme
Report == Accepted => PrintT("@" \o ToJson([c |-> c]))
=============================================================================
