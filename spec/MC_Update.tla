----------------------------- MODULE MC_Update ------------------------------
(* Every plan with one thing (or the compiler and the readme) going wrong,  *)
(* and every schedule of the two workers.  `at` is the number of answers    *)
(* the compiler had given when the readme was read; every (plan, schedule,  *)
(* outcome) is emitted, to be driven in the real updater.                   *)
EXTENDS CfgUpdate, Json
CONSTANTS N, Two      \* targets; two bad targets at once?
VARIABLE at

Plans ==
  LET qs == {"version", "list"} \cup {Cfg(i) : i \in 1..N}
      bads == {{}} \cup {{q} : q \in qs} \cup (IF Two THEN {{a, b} : a, b \in qs \ {"version", "list"}} ELSE {})
  IN {[Good EXCEPT !.n = N, !.bad = b, !.unseen = u, !.readme = r] : b \in bads, u \in SUBSET {"version", "list", Cfg(1)}, r \in {"good", "bad"}}
     \cup {[Good EXCEPT !.n = N, !.write = w] : w \in {"refused", "cut"}}
     \cup {[Good EXCEPT !.n = N, !.format = f] : f \in {"fails", "unseen"}}
     \cup {[Good EXCEPT !.n = N, !.rewrite = w] : w \in {"refused", "cut"}}
Init == /\ plan \in {p \in Plans : p.unseen \subseteq p.bad /\ Cardinality(p.unseen) <= 1}
        /\ Begin /\ at = 99
Next == Step /\ at' = IF rw = "run" /\ rw' # "run" THEN Cardinality(answered \cap ({"list"} \cup CfgQ)) ELSE at
Spec == Init /\ [][Next]_<<vars, at>> /\ WF_<<vars, at>>(Next)
Emit == exit # "none" => PrintT("@" \o ToJson([plan |-> plan, at |-> at, exit |-> exit, table |-> table, readme |-> readme]))
=============================================================================
