------------------------------ MODULE CfgWords ------------------------------
(* Generated by tools/genwords.py: literal texts as code points. *)
W_cfg == <<99, 102, 103, 40>>    \* cfg(
W_all == <<97, 108, 108>>    \* all
W_any == <<97, 110, 121>>    \* any
W_not == <<110, 111, 116>>    \* not
W_unix == <<117, 110, 105, 120>>    \* unix
W_windows == <<119, 105, 110, 100, 111, 119, 115>>    \* windows
W_test == <<116, 101, 115, 116>>    \* test
W_debug == <<100, 101, 98, 117, 103, 95, 97, 115, 115, 101, 114, 116, 105, 111, 110, 115>>    \* debug_assertions
W_pm == <<112, 114, 111, 99, 95, 109, 97, 99, 114, 111>>    \* proc_macro
W_feature == <<102, 101, 97, 116, 117, 114, 101>>    \* feature
W_panic == <<112, 97, 110, 105, 99>>    \* panic
W_target == <<116, 97, 114, 103, 101, 116, 95>>    \* target_
W_abi == <<97, 98, 105>>    \* abi
W_arch == <<97, 114, 99, 104>>    \* arch
W_os == <<111, 115>>    \* os
W_family == <<102, 97, 109, 105, 108, 121>>    \* family
W_env == <<101, 110, 118>>    \* env
W_vendor == <<118, 101, 110, 100, 111, 114>>    \* vendor
W_endian == <<101, 110, 100, 105, 97, 110>>    \* endian
W_atomic == <<104, 97, 115, 95, 97, 116, 111, 109, 105, 99>>    \* has_atomic
W_width == <<112, 111, 105, 110, 116, 101, 114, 95, 119, 105, 100, 116, 104>>    \* pointer_width
W_big == <<98, 105, 103>>    \* big
W_little == <<108, 105, 116, 116, 108, 101>>    \* little
W_ptr == <<112, 116, 114>>    \* ptr
W_none == <<110, 111, 110, 101>>    \* none
W_unknown == <<117, 110, 107, 110, 111, 119, 110>>    \* unknown
W_targetendian == <<116, 97, 114, 103, 101, 116, 95, 101, 110, 100, 105, 97, 110>>    \* target_endian
W_wasm == <<119, 97, 115, 109>>    \* wasm
W_found == <<44, 32, 102, 111, 117, 110, 100, 32>>    \* , found 
W_K_panic == <<112, 97, 110, 105, 99>>    \* panic
W_K_abi == <<116, 97, 114, 103, 101, 116, 95, 97, 98, 105>>    \* target_abi
W_K_arch == <<116, 97, 114, 103, 101, 116, 95, 97, 114, 99, 104>>    \* target_arch
W_K_endian == <<116, 97, 114, 103, 101, 116, 95, 101, 110, 100, 105, 97, 110>>    \* target_endian
W_K_env == <<116, 97, 114, 103, 101, 116, 95, 101, 110, 118>>    \* target_env
W_K_family == <<116, 97, 114, 103, 101, 116, 95, 102, 97, 109, 105, 108, 121>>    \* target_family
W_K_feature == <<116, 97, 114, 103, 101, 116, 95, 102, 101, 97, 116, 117, 114, 101>>    \* target_feature
W_K_atomic == <<116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99>>    \* target_has_atomic
W_K_os == <<116, 97, 114, 103, 101, 116, 95, 111, 115>>    \* target_os
W_K_width == <<116, 97, 114, 103, 101, 116, 95, 112, 111, 105, 110, 116, 101, 114, 95, 119, 105, 100, 116, 104>>    \* target_pointer_width
W_K_vendor == <<116, 97, 114, 103, 101, 116, 95, 118, 101, 110, 100, 111, 114>>    \* target_vendor
W_K_reloc == <<114, 101, 108, 111, 99, 97, 116, 105, 111, 110, 95, 109, 111, 100, 101, 108>>    \* relocation_model
W_K_equal == <<116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 95, 101, 113, 117, 97, 108, 95, 97, 108, 105, 103, 110, 109, 101, 110, 116>>    \* target_has_atomic_equal_alignment
W_K_ldst == <<116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 95, 108, 111, 97, 100, 95, 115, 116, 111, 114, 101>>    \* target_has_atomic_load_store
W_K_fmt == <<102, 109, 116, 95, 100, 101, 98, 117, 103>>    \* fmt_debug
W_OpenBracket == <<91>>    \* [
W_CloseLabel == <<93, 58>>    \* ]:
Msg_UnclosedParens == <<117, 110, 99, 108, 111, 115, 101, 100, 32, 112, 97, 114, 101, 110, 115>>    \* unclosed parens
Msg_UnopenedParens == <<117, 110, 111, 112, 101, 110, 101, 100, 32, 112, 97, 114, 101, 110, 115>>    \* unopened parens
Msg_UnclosedQuotes == <<117, 110, 99, 108, 111, 115, 101, 100, 32, 113, 117, 111, 116, 101, 115>>    \* unclosed quotes
Msg_Empty == <<101, 109, 112, 116, 121, 32, 101, 120, 112, 114, 101, 115, 115, 105, 111, 110>>    \* empty expression
Msg_InvalidInteger == <<105, 110, 118, 97, 108, 105, 100, 32, 105, 110, 116, 101, 103, 101, 114>>    \* invalid integer
Msg_MultipleRoot == <<109, 117, 108, 116, 105, 112, 108, 101, 32, 114, 111, 111, 116, 32, 112, 114, 101, 100, 105, 99, 97, 116, 101, 115>>    \* multiple root predicates
Msg_InvalidHasAtomic == <<101, 120, 112, 101, 99, 116, 101, 100, 32, 105, 110, 116, 101, 103, 101, 114, 32, 111, 114, 32, 34, 112, 116, 114, 34>>    \* expected integer or "ptr"
Msg_InvalidNot == <<110, 111, 116, 40, 41, 32, 116, 97, 107, 101, 115, 32, 49, 32, 112, 114, 101, 100, 105, 99, 97, 116, 101, 44, 32, 102, 111, 117, 110, 100, 32>>    \* not() takes 1 predicate, found 
Msg_OneOf == <<101, 120, 112, 101, 99, 116, 101, 100, 32, 111, 110, 101, 32, 111, 102, 32>>    \* expected one of 
Msg_A == <<101, 120, 112, 101, 99, 116, 101, 100, 32, 97, 32>>    \* expected a 
Msg_Here == <<32, 104, 101, 114, 101>>    \*  here
Msg_NotExpected == <<116, 104, 101, 32, 116, 101, 114, 109, 32, 119, 97, 115, 32, 110, 111, 116, 32, 101, 120, 112, 101, 99, 116, 101, 100, 32, 104, 101, 114, 101>>    \* the term was not expected here
Msg_InvalidCharacters == <<105, 110, 118, 97, 108, 105, 100, 32, 99, 104, 97, 114, 97, 99, 116, 101, 114, 40, 115, 41>>    \* invalid character(s)
Msg_UnopenedQuotes == <<117, 110, 111, 112, 101, 110, 101, 100, 32, 113, 117, 111, 116, 101, 115>>    \* unopened quotes
Msg_UnknownBuiltin == <<117, 110, 107, 110, 111, 119, 110, 32, 98, 117, 105, 108, 116, 45, 105, 110>>    \* unknown built-in
Msg_UnexpectedTerm == <<117, 110, 101, 120, 112, 101, 99, 116, 101, 100, 32, 116, 101, 114, 109>>    \* unexpected term
Msg_NotTakes == <<110, 111, 116, 40, 41, 32, 116, 97, 107, 101, 115, 32, 49, 32, 112, 114, 101, 100, 105, 99, 97, 116, 101>>    \* not() takes 1 predicate
TermText(x) ==
  CASE x = "<key>" -> <<60, 107, 101, 121, 62>>
    [] x = "all" -> <<97, 108, 108>>
    [] x = "any" -> <<97, 110, 121>>
    [] x = "not" -> <<110, 111, 116>>
    [] x = "(" -> <<40>>
    [] x = ")" -> <<41>>
    [] x = "," -> <<44>>
    [] x = "\"" -> <<34>>
    [] x = "=" -> <<61>>
    [] x = "= \"<feature_name>\"" -> <<61, 32, 34, 60, 102, 101, 97, 116, 117, 114, 101, 95, 110, 97, 109, 101, 62, 34>>
    [] x = "= \"<panic_strategy>\"" -> <<61, 32, 34, 60, 112, 97, 110, 105, 99, 95, 115, 116, 114, 97, 116, 101, 103, 121, 62, 34>>
    [] x = "= \"<target_cfg_value>\"" -> <<61, 32, 34, 60, 116, 97, 114, 103, 101, 116, 95, 99, 102, 103, 95, 118, 97, 108, 117, 101, 62, 34>>
    [] x = "<feature>" -> <<60, 102, 101, 97, 116, 117, 114, 101, 62>>
    [] x = "big" -> <<98, 105, 103>>
    [] x = "little" -> <<108, 105, 116, 116, 108, 101>>
    [] x = "\"<value>\"" -> <<34, 60, 118, 97, 108, 117, 101, 62, 34>>
    [] x = "target_abi" -> <<116, 97, 114, 103, 101, 116, 95, 97, 98, 105>>
    [] x = "target_arch" -> <<116, 97, 114, 103, 101, 116, 95, 97, 114, 99, 104>>
    [] x = "target_feature" -> <<116, 97, 114, 103, 101, 116, 95, 102, 101, 97, 116, 117, 114, 101>>
    [] x = "target_os" -> <<116, 97, 114, 103, 101, 116, 95, 111, 115>>
    [] x = "target_family" -> <<116, 97, 114, 103, 101, 116, 95, 102, 97, 109, 105, 108, 121>>
    [] x = "target_env" -> <<116, 97, 114, 103, 101, 116, 95, 101, 110, 118>>
    [] x = "target_endian" -> <<116, 97, 114, 103, 101, 116, 95, 101, 110, 100, 105, 97, 110>>
    [] x = "target_has_atomic" -> <<116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99>>
    [] x = "target_pointer_width" -> <<116, 97, 114, 103, 101, 116, 95, 112, 111, 105, 110, 116, 101, 114, 95, 119, 105, 100, 116, 104>>
    [] x = "target_vendor" -> <<116, 97, 114, 103, 101, 116, 95, 118, 101, 110, 100, 111, 114>>
=============================================================================
