----------------------------- MODULE CfgListing -----------------------------
(* What the compiler prints for a target (`--print cfg`), and the target    *)
(* description that listing stands for.  Lines are texts: a bare name, or   *)
(* key="value".                                                             *)
EXTENDS CfgTarget

Ignored == {W_K_feature, W_K_reloc, W_K_equal, W_K_ldst, W_K_fmt}
Known == Ignored \cup {W_K_panic, W_K_abi, W_K_arch, W_K_endian, W_K_env, W_K_family, W_K_atomic, W_K_os,
                       W_K_width, W_K_vendor}

RECURSIVE Eq(_, _)
Eq(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = 61 THEN i ELSE Eq(s, i + 1)
KeyOf(s) == IF Eq(s, 1) = 0 THEN <<>> ELSE SubSeq(s, 1, Eq(s, 1) - 1)
ValueOf(s) == SubSeq(s, Eq(s, 1) + 2, Len(s) - 1)
LineOf(k, v) == k \o <<61, 34>> \o v \o <<34>>

RECURSIVE ValuesFrom(_, _, _)
ValuesFrom(lines, k, i) ==
  IF i > Len(lines) THEN <<>>
  ELSE (IF Eq(lines[i], 1) > 0 /\ KeyOf(lines[i]) = k THEN <<ValueOf(lines[i])>> ELSE <<>>) \o ValuesFrom(lines, k, i + 1)
Values(lines, k) == ValuesFrom(lines, k, 1)

Understood(lines) == /\ \A i \in 1..Len(lines) : Eq(lines[i], 1) > 0 => KeyOf(lines[i]) \in Known
                     /\ \A k \in {W_K_arch, W_K_endian, W_K_width, W_K_panic} : Values(lines, k) # <<>>

Unless(vs, absent) == IF vs = <<>> \/ vs[1] = absent THEN <<>> ELSE <<vs[1]>>
Described(triple, lines) ==
  [triple |-> triple,
   os |-> Unless(Values(lines, W_K_os), W_none), abi |-> Unless(Values(lines, W_K_abi), <<>>),
   arch |-> Values(lines, W_K_arch)[1], env |-> Unless(Values(lines, W_K_env), <<>>),
   vendor |-> Unless(Values(lines, W_K_vendor), <<>>), fam |-> Values(lines, W_K_family),
   width |-> Values(lines, W_K_width)[1], endian |-> Values(lines, W_K_endian)[1],
   atomics |-> Values(lines, W_K_atomic), panic |-> Values(lines, W_K_panic)[1]]
=============================================================================
