----------------------------- MODULE MC_Listing -----------------------------
(* Target descriptions, each printed as a listing: every absent value once  *)
(* as a missing line and once as the value that stands for it, the lines in *)
(* some order, between lines that are to be ignored.                        *)
EXTENDS CfgListing, Json, IOUtils
ASSUME TLCSet(7, JsonDeserialize(IOEnv.DOMAIN))   \* os, abi, env, vendor: options; arch, panic, endian, width: values; fam, atomics: lists; extra: lines
D == TLCGet(7)
CONSTANTS Slice, Slices   \* which part of the descriptions

VARIABLES seed, t, lines
vars == <<seed, t, lines>>

(* An option of a listing: <<>> a missing line, <<v>> a line with value v.  *)
Line(k, o) == IF o = <<>> THEN <<>> ELSE <<LineOf(k, o[1])>>
RECURSIVE Each(_, _, _)
Each(k, vs, i) == IF i > Len(vs) THEN <<>> ELSE <<LineOf(k, vs[i])>> \o Each(k, vs, i + 1)

Init == /\ seed \in (1..Len(D.os)) \X (1..Len(D.abi)) \X (1..Len(D.env)) \X (1..Len(D.vendor))
        /\ t = <<>> /\ lines = <<>>
(* the order of the lines: turned, dealt into s hands *)
Turn(s, k) == SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k)
Deal(s, h) == IF h = 1 THEN s
              ELSE LET pick(r) == SelectSeq([i \in 1..Len(s) |-> <<i, s[i]>>], LAMBDA x : x[1] % h = r)
                       both == pick(0) \o pick(1) \o (IF h > 2 THEN pick(2) ELSE <<>>)
                   IN [i \in 1..Len(both) |-> both[i][2]]
Next ==
  /\ t = <<>>
  /\ \E a \in 1..Len(D.arch), w \in 1..Len(D.width), e \in 1..2, p \in 1..Len(D.panic), f \in 1..Len(D.fam), m \in 1..Len(D.atomics) :
       LET n == seed[1] * 7 + seed[2] * 11 + seed[3] * 13 + seed[4] * 17 + a * 19 + w * 23 + e * 29 + p * 31 + f * 37 + m * 41
           os == D.os[seed[1]]  abi == D.abi[seed[2]]  env == D.env[seed[3]]  vendor == D.vendor[seed[4]]
           en == IF e = 1 THEN W_big ELSE W_little
           all == Line(W_K_os, os) \o Line(W_K_abi, abi) \o <<LineOf(W_K_arch, D.arch[a])>> \o Line(W_K_env, env)
                  \o Line(W_K_vendor, vendor) \o Each(W_K_family, D.fam[f], 1) \o <<LineOf(W_K_width, D.width[w])>>
                  \o <<LineOf(W_K_endian, en)>> \o Each(W_K_atomic, D.atomics[m], 1) \o <<LineOf(W_K_panic, D.panic[p])>>
                  \o SubSeq(D.extra, 1, n % (Len(D.extra) + 1))
       IN /\ n % Slices = Slice
          /\ lines' = Deal(Turn(all, n % Len(all)), 1 + (n % 3))
          /\ t' = [os |-> IF os = <<W_none>> THEN <<>> ELSE os, abi |-> IF abi = <<<<>>>> THEN <<>> ELSE abi,
                   env |-> IF env = <<<<>>>> THEN <<>> ELSE env, vendor |-> IF vendor = <<<<>>>> THEN <<>> ELSE vendor,
                   arch |-> D.arch[a], fam |-> ElemsOf(D.fam[f]), width |-> D.width[w], endian |-> en,
                   atomics |-> ElemsOf(D.atomics[m]), panic |-> D.panic[p]]
  /\ UNCHANGED seed
Spec == Init /\ [][Next]_vars

(* Reading the listing gives back the description. *)
RoundTrip ==
  t # <<>> =>
    LET d == Described(<<116>>, lines)
    IN /\ Understood(lines)
       /\ \A f \in {"os", "abi", "arch", "env", "vendor", "width", "endian", "panic"} : d[f] = t[f]
       /\ ElemsOf(d.fam) = t.fam /\ ElemsOf(d.atomics) = t.atomics
Emit == t # <<>> => PrintT("@" \o ToJson([lines |-> lines]))
=============================================================================
