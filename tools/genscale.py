#!/usr/bin/env python3
"""Writes spec/CfgScaleData.tla: the text families of MC_Scale (pre u^k mid w^k post) as code points.
What is expected of them is stated in MC_Scale.tla."""
import os
LEAVES = ("unix,windows,test,debug_assertions,proc_macro,feature=\"fi\",panic=\"p\",target_os=\"o\",target_arch=\"\u00e9\",target_family=\"y\","
  "target_env=\"e\",target_abi=\"i\",target_vendor=\"w\",target_feature=\"t\",target_endian=\"big\",target_has_atomic=\"8\","
  "target_has_atomic=\"ptr\",target_pointer_width=\"64\",key=\"v\",flag")
F = dict(
  nestNot=("", "not(", "a", ")", ""), nestAll=("", "all(", "a", ")", ""), nestAny=("", "any(", "b", ",)", ""),
  nestMix=("", "all(b,any(c,not(", "a", ")))", ""), nestMixRev=("", "any(all(", "a", ",b,),not(c))", ""),
  nestFns=("", "any(all(d),b,", "a", ")", ""), nestWrapped=("cfg(", "all(", "c", " )", ")"),
  nestTwo=("all(", "not(", "a", ")", ",b,not(c))"),
  wideAll=("all(", "a,", "", "", ")"), wideAny=("any(", "b,", "", "", ")"),
  wideFns=("all(", "any(a,b),", "", "", ")"), wideEmpty=("any(", "all(),", "", "", ")"),
  wideFnLeaf=("any(", "not(a),", "b", "", ")"), wideLeafFn=("all(", "a,", "any(b,c)", "", ")"),
  wideMix=("not(all(", "not(not(c)),d,", "", "", "))"), wideInner=("any(all(", "any(),", "", "", "),b)"),
  wideInner2=("all(b,not(any(", "all(c,d),", "a", "", ")),c)"), wideKv=("any(", "k=\"\u00e9\", ", "a", "", " )"),
  longKey=("x", "k", "", "", ""), longVal=("feature=\"", "\u00e9", "", "", "\""), longWs=("", " \u3000", "a", "\u2028", ""),
  longPair=("any(b,", "k", " = \"", "(", "\")"), zeros=("target_has_atomic=\"", "0", "", "", "8\""),
  unclosed=("", "all(", "", "", ""), unclosedVal=("all(k=\"", "\u00e9", "", "", "\","), closes=("a", ")", "", "", ""),
  nestClose=("", "not(", "a", ")", ")"), notMany=("not(", "a,", "b", "", ")"), notManyFns=("all(not(", "all(),", "any()", "", "),"),
  quote=("feature=\"", "\u65e5", "", "", ""), roots=("a", ",b", "", "", ""), rootsFns=("b,", "all(),", "", "", ""),
  stray=("", "\u3000", "\u00e9", "", ""), doubleComma=("all(a", ",b", "", "", ",,)"), badInt=("target_pointer_width=\"", "1", "", "", "\""),
  badAtomic=("any(b,target_has_atomic=\"", "9", "", "", "\")"), eqEnd=("", "any(", "", "", "k="), fnEnd=("", "not(", "", "", "all"),
  opens=("all", "(", "", "", ""), commas=("", ",", "", "", ""), blanks=("", "\u00a0", "", "", ""), eqs=("a", "=", "", "", ""),
  unknownKey=("target_", "x", "", "", " = \"\""), deepNot=("", "all(b,", "not()", ")", ""), words=("", "a ", "", "", ""),
  farWs=("any(", "\u00a0", LEAVES, "", ")"), farVal=("all(m=\"", "\u00e9", "\"," + LEAVES, "", ")"),
  farList=("any(", "b,", LEAVES, "", ")"), farNest=("", "not(", "all(" + LEAVES + ")", ")", ""),
  farWidth=("any(", "b,", "target_pointer_width=\"x\"", "", ")"), farTarget=("all(", "b,", "target_x=\"\"", "", ")"),
  farBare=("", "\u3000", "unix=\"v\"", "", ""), farFeature=("", "not(", "feature", ")", ""),
  farEmpty=("any(k=\"", "\u00e9", "\",target_feature=\"\"", "", ")"), farNot=("any(", "b,", "not()", "", ")"),
  farQuote=("any(", "b,", "k=\"v", "", ""), farOpen=("any(", "b,", "all(c", "", ""))
cp = lambda s: "<<" + ", ".join(str(ord(c)) for c in s) + ">>"
out = ["---------------------------- MODULE CfgScaleData ---------------------------",
       "(* Generated by tools/genscale.py: the families of MC_Scale, as <<pre, u, mid, w, post>>. *)",
       "Parts(f) =="]
for i, (k, v) in enumerate(F.items()):
    out.append(("  CASE " if i == 0 else "    [] ") + f'f = "{k}" -> <<' + ", ".join(cp(x) for x in v) + ">>")
out += ["Families == {" + ", ".join(f'"{k}"' for k in F) + "}", "=" * 77, ""]
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "CfgScaleData.tla"), "w").write("\n".join(out))
