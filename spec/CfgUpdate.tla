----------------------------- MODULE CfgUpdate ------------------------------
(* The updater: it asks the compiler for its version, then two workers run  *)
(* at the same time, one asking the compiler for its targets and for each   *)
(* of them, the other reading the readme; when both are done it writes the  *)
(* table, has it formatted, and writes the readme.                          *)
(*                                                                          *)
(* A plan says what goes wrong:                                             *)
(*   n        number of targets                                             *)
(*   bad      the queries that are answered in a way that is no answer      *)
(*   unseen   those of them for which the compiler could not even be run    *)
(*   readme   "good" or "bad"                                               *)
(*   write    the table can be written: "ok", "refused", "cut" (part of it) *)
(*   format   "ok", "fails", "unseen" (the formatter could not be run)      *)
(*   rewrite  as write, for the readme                                      *)
(* Queries are "version", "list", "cfg1", ..., "cfgn".                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES plan,
          main,      \* "start", "gather", "write", "format", "rewrite", "end"
          tw, rw,    \* the workers: "run", "done", "failed"
          asked, answered,
          table,     \* "old", "raw", "formatted"
          readme,    \* "old", "new", "cut"
          exit       \* "none", "ok", "fail"
vars == <<plan, main, tw, rw, asked, answered, table, readme, exit>>

Cfg(i) == "cfg" \o ToString(i)
CfgQ == {Cfg(i) : i \in 1..plan.n}
Queries == {"version", "list"} \cup CfgQ
Good == [n |-> 1, bad |-> {}, unseen |-> {}, readme |-> "good", write |-> "ok", format |-> "ok", rewrite |-> "ok"]
GatherFault(p) == p.bad # {} \/ p.readme = "bad"
Fault(p) == GatherFault(p) \/ p.write # "ok" \/ p.format # "ok" \/ p.rewrite # "ok"

Begin == /\ main = "start" /\ tw = "run" /\ rw = "run"
         /\ asked = {} /\ answered = {} /\ table = "old" /\ readme = "old" /\ exit = "none"

Running == exit = "none"
End(how) == exit' = how /\ main' = "end"

---------------------------------------------------------------------------
(* Asking the compiler.                                                     *)
MayAsk(q) == /\ Running /\ q \notin asked
             /\ CASE q = "version" -> main = "start"
                  [] q = "list" -> main = "gather" /\ tw = "run"
                  [] OTHER -> main = "gather" /\ tw = "run" /\ "list" \in answered
Ask(q) == /\ MayAsk(q) /\ asked' = asked \cup {q}
          /\ UNCHANGED <<plan, main, tw, rw, answered, table, readme, exit>>
Answered(q) == Running /\ q \in asked /\ q \notin answered
WellAnswered(q) == /\ Answered(q) /\ q \notin plan.bad /\ answered' = answered \cup {q}
                   /\ main' = IF q = "version" THEN "gather" ELSE main
                   /\ tw' = IF CfgQ \cup {"list"} \subseteq answered' THEN "done" ELSE tw
                   /\ UNCHANGED <<plan, rw, asked, table, readme, exit>>
VersionFails == /\ Answered("version") /\ "version" \in plan.bad /\ End("fail")
                /\ UNCHANGED <<plan, tw, rw, asked, answered, table, readme>>
WorkerFails(q) == /\ Answered(q) /\ q # "version" /\ q \in plan.bad /\ tw = "run" /\ tw' = "failed"
                  /\ UNCHANGED <<plan, main, rw, asked, answered, table, readme, exit>>
---------------------------------------------------------------------------
(* The readme.                                                              *)
ReadReadme == /\ Running /\ main \in {"start", "gather"} /\ rw = "run"
              /\ rw' = IF plan.readme = "good" THEN "done" ELSE "failed"
              /\ UNCHANGED <<plan, main, tw, asked, answered, table, readme, exit>>
---------------------------------------------------------------------------
(* A worker that failed ends the program, at once or once the other one is  *)
(* through.                                                                 *)
GiveUp == /\ Running /\ main \in {"start", "gather"} /\ (tw = "failed" \/ rw = "failed") /\ End("fail")
          /\ UNCHANGED <<plan, tw, rw, asked, answered, table, readme>>
Gathered == /\ Running /\ main = "gather" /\ tw = "done" /\ rw = "done" /\ main' = "write"
            /\ UNCHANGED <<plan, tw, rw, asked, answered, table, readme, exit>>
---------------------------------------------------------------------------
WriteTable ==
  /\ Running /\ main = "write"
  /\ CASE plan.write = "ok" -> main' = "format" /\ table' = "raw" /\ exit' = exit
       [] plan.write = "cut" -> End("fail") /\ table' = "raw"
       [] OTHER -> End("fail") /\ table' = table
  /\ UNCHANGED <<plan, tw, rw, asked, answered, readme>>
Format ==
  /\ Running /\ main = "format"
  /\ IF plan.format = "ok" THEN main' = "rewrite" /\ table' = "formatted" /\ exit' = exit
     ELSE End("fail") /\ table' \in {table, "formatted"}
  /\ UNCHANGED <<plan, tw, rw, asked, answered, readme>>
WriteReadme ==
  /\ Running /\ main = "rewrite"
  /\ CASE plan.rewrite = "ok" -> End("ok") /\ readme' = "new"
       [] plan.rewrite = "cut" -> End("fail") /\ readme' = "cut"
       [] OTHER -> End("fail") /\ readme' = readme
  /\ UNCHANGED <<plan, tw, rw, asked, answered, table>>

Step == \/ \E q \in Queries : Ask(q) \/ WellAnswered(q) \/ WorkerFails(q)
        \/ VersionFails \/ ReadReadme \/ GiveUp \/ Gathered \/ WriteTable \/ Format \/ WriteReadme
---------------------------------------------------------------------------
(* What a user relies on.                                                   *)
Written == table # "old" \/ readme # "old"
AllGathered == Queries \subseteq answered /\ rw = "done" /\ ~GatherFault(plan)
GatherFirst == Written => AllGathered
TableFirst == readme # "old" => table = "formatted" /\ plan.format = "ok"
Honest == exit = "ok" => table = "formatted" /\ readme = "new" /\ ~Fault(plan)
FaultReported == exit # "none" /\ Fault(plan) => exit = "fail"
NoFalseFailure == exit = "fail" => Fault(plan)
Harmless == exit = "fail" /\ GatherFault(plan) => ~Written
Ends == <>(exit # "none")
=============================================================================
