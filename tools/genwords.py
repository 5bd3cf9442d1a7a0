#!/usr/bin/env python3
"""Writes spec/CfgWords.tla: literal texts as code points (TLC re-evaluates definitions that compute
them, and its strings cannot be indexed cheaply)."""
import os
W = dict(cfg="cfg(", all="all", any="any", **{"not": "not"}, unix="unix", windows="windows", test="test",
  debug="debug_assertions", pm="proc_macro", feature="feature", panic="panic", target="target_",
  abi="abi", arch="arch", os="os", family="family", env="env", vendor="vendor", endian="endian",
  atomic="has_atomic", width="pointer_width", big="big", little="little", ptr="ptr", none="none", unknown="unknown",
  targetendian="target_endian", wasm="wasm", found=", found ",
  K_panic="panic", K_abi="target_abi", K_arch="target_arch", K_endian="target_endian", K_env="target_env",
  K_family="target_family", K_feature="target_feature", K_atomic="target_has_atomic", K_os="target_os",
  K_width="target_pointer_width", K_vendor="target_vendor", K_reloc="relocation_model",
  K_equal="target_has_atomic_equal_alignment", K_ldst="target_has_atomic_load_store", K_fmt="fmt_debug",
  OpenBracket="[", CloseLabel="]:")
M = dict(UnclosedParens="unclosed parens", UnopenedParens="unopened parens", UnclosedQuotes="unclosed quotes",
  Empty="empty expression", InvalidInteger="invalid integer", MultipleRoot="multiple root predicates",
  InvalidHasAtomic='expected integer or "ptr"', InvalidNot="not() takes 1 predicate, found ",
  OneOf="expected one of ", A="expected a ", Here=" here", NotExpected="the term was not expected here",
  InvalidCharacters="invalid character(s)", UnopenedQuotes="unopened quotes", UnknownBuiltin="unknown built-in",
  UnexpectedTerm="unexpected term", NotTakes="not() takes 1 predicate")
X = ["<key>", "all", "any", "not", "(", ")", ",", "\"", "=", "= \"<feature_name>\"", "= \"<panic_strategy>\"",
  "= \"<target_cfg_value>\"", "<feature>", "big", "little", "\"<value>\"",
  "target_abi", "target_arch", "target_feature", "target_os", "target_family", "target_env", "target_endian",
  "target_has_atomic", "target_pointer_width", "target_vendor"]
cp = lambda s: "<<" + ", ".join(str(ord(c)) for c in s) + ">>"
q = lambda s: '"' + s.replace('"', '\\"') + '"'
out = ["------------------------------ MODULE CfgWords ------------------------------",
       "(* Generated by tools/genwords.py: literal texts as code points. *)"]
out += [f"W_{k} == {cp(v)}    \\* {v}" for k, v in W.items()]
out += [f"Msg_{k} == {cp(v)}    \\* {v}" for k, v in M.items()]
out += ["TermText(x) =="]
out += [("  CASE " if i == 0 else "    [] ") + f"x = {q(x)} -> {cp(x)}" for i, x in enumerate(X)]
out += ["=" * 77, ""]
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "CfgWords.tla"), "w").write("\n".join(out))

# -- the domain of MC_Leaves ----------------------------------------------------------------------
KEYS = ["unix", "windows", "test", "debug_assertions", "proc_macro", "feature", "panic", "target_abi", "target_arch",
  "target_os", "target_family", "target_env", "target_vendor", "target_feature", "target_endian", "target_has_atomic",
  "target_pointer_width", "target_", "target", "target_oss", "target_o", "target_Os", "Target_os", "target_os_",
  "target_thread_local", "target_has_atomics", "target_has_atomic_load_store", "target_widths", "target_unix",
  "target_pointer", "target_test", "Unix", "unixx", "_unix", "unix_", "unix1", "windowss", "Windows", "wasm", "tests", "tes",
  "debug_assertion", "proc_macros", "features", "Feature", "panics", "_", "a", "Z9_", "allx", "any1", "not_", "cfg",
  "true", "version", "doc"]
VALUES = ["", "a", "linux", "unix", "windows", "x86_64", "gnu", "unwind", "abort", "big", "little", "Big", "bigger",
  "big ", "64", "32", "16", "8", "0", "255", "256", "300", "65535", "65536", "99999999999", "4294967304", "+8", "+064", "-8", "+", " 8", "8 ",
  "8a", "0x8", "1_6", "\u0663", "\uff18", "ptr", "Ptr", "ptr ", "none", "unknown", "é", "日本", "😀", " a", "a b", "\t",
  "(", ")", ",", "=", "all(", "a,b", "\\", "\\n", "'", "cfg(x)", "//", "\u3000"]
CTX = [("", ""), ("cfg(", ")"), (" \t", "\n"), ("", " ,"), ("all(", ")"), ("not(", ")"), ("any( ", " ,)"),
  ("all(é9=\"日\", ", ", b)".replace("é9", "k9")), ("any(all(), ", ")"), ("not(any(\"", ")"), ("all(any(", "), c, not(d))"),
  ("any(\u3000k = \"😀(\" ,", "\u3000)"), ("all(b, not(", "),)"), ("all(a,any(b,", "),c)")]
CTX = [c for c in CTX if c[0] != "not(any(\""]
SAME = ["a", "unix", "target_family=\"unix\"", "windows", "test", "debug_assertions", "proc_macro", "feature=\"f\"", "feature=\"\"",
  "k=\"v\"", "k=\"\"", "k", "panic=\"abort\"", "target_feature=\"f\"", "target_os=\"f\"", "target_arch=\"f\"", "target_env=\"\"",
  "target_abi=\"\"", "target_vendor=\"f\"", "target_endian=\"big\"", "target_has_atomic=\"8\"", "target_has_atomic=\"ptr\"",
  "target_has_atomic=\"08\"", "target_pointer_width=\"8\""]
TEXTKEYS = ["feature", "panic", "target_abi", "target_arch", "target_os", "target_family", "target_env", "target_vendor",
  "target_feature", "k", "unix_"]
MARKS = "".join(chr(c) for c in range(32, 127) if not chr(c).isalnum() and c != 34) + "09aZ\t\n\r\0\u00a0\u00e9\u2028\u0130\U0001f600"
seqs = lambda xs: "<< " + ",\n  ".join(cp(x) if x else "<<>>" for x in xs) + " >>"
out = ["---------------------------- MODULE CfgLeafData ----------------------------",
       "(* Generated by tools/genwords.py: keys, values and contexts of MC_Leaves. *)",
       "Keys == {" + seqs(KEYS)[2:-2] + "}", "Values == {" + seqs(VALUES)[2:-2] + "}",
       "Contexts == << " + ",\n  ".join("<<%s, %s>>" % tuple(cp(x) if x else "<<>>" for x in c) for c in CTX) + " >>",
       "(* leaves of every kind (MC_Same); keys that take any value, and characters that might mean something (MC_Quoted) *)",
       "SameLeaves == << " + ",\n  ".join(cp(x) for x in SAME) + " >>",
       "TextKeys == << " + ",\n  ".join(cp(x) for x in TEXTKEYS) + " >>",
       "Marks == " + cp(MARKS),
       "=" * 77, ""]
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "CfgLeafData.tla"), "w").write("\n".join(out))
