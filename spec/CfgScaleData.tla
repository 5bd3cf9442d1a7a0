---------------------------- MODULE CfgScaleData ---------------------------
(* Generated by tools/genscale.py: the families of MC_Scale, as <<pre, u, mid, w, post>>. *)
Parts(f) ==
  CASE f = "nestNot" -> <<<<>>, <<110, 111, 116, 40>>, <<97>>, <<41>>, <<>>>>
    [] f = "nestAll" -> <<<<>>, <<97, 108, 108, 40>>, <<97>>, <<41>>, <<>>>>
    [] f = "nestAny" -> <<<<>>, <<97, 110, 121, 40>>, <<98>>, <<44, 41>>, <<>>>>
    [] f = "nestMix" -> <<<<>>, <<97, 108, 108, 40, 98, 44, 97, 110, 121, 40, 99, 44, 110, 111, 116, 40>>, <<97>>, <<41, 41, 41>>, <<>>>>
    [] f = "nestMixRev" -> <<<<>>, <<97, 110, 121, 40, 97, 108, 108, 40>>, <<97>>, <<44, 98, 44, 41, 44, 110, 111, 116, 40, 99, 41, 41>>, <<>>>>
    [] f = "nestFns" -> <<<<>>, <<97, 110, 121, 40, 97, 108, 108, 40, 100, 41, 44, 98, 44>>, <<97>>, <<41>>, <<>>>>
    [] f = "nestWrapped" -> <<<<99, 102, 103, 40>>, <<97, 108, 108, 40>>, <<99>>, <<32, 41>>, <<41>>>>
    [] f = "nestTwo" -> <<<<97, 108, 108, 40>>, <<110, 111, 116, 40>>, <<97>>, <<41>>, <<44, 98, 44, 110, 111, 116, 40, 99, 41, 41>>>>
    [] f = "wideAll" -> <<<<97, 108, 108, 40>>, <<97, 44>>, <<>>, <<>>, <<41>>>>
    [] f = "wideAny" -> <<<<97, 110, 121, 40>>, <<98, 44>>, <<>>, <<>>, <<41>>>>
    [] f = "wideFns" -> <<<<97, 108, 108, 40>>, <<97, 110, 121, 40, 97, 44, 98, 41, 44>>, <<>>, <<>>, <<41>>>>
    [] f = "wideEmpty" -> <<<<97, 110, 121, 40>>, <<97, 108, 108, 40, 41, 44>>, <<>>, <<>>, <<41>>>>
    [] f = "wideFnLeaf" -> <<<<97, 110, 121, 40>>, <<110, 111, 116, 40, 97, 41, 44>>, <<98>>, <<>>, <<41>>>>
    [] f = "wideLeafFn" -> <<<<97, 108, 108, 40>>, <<97, 44>>, <<97, 110, 121, 40, 98, 44, 99, 41>>, <<>>, <<41>>>>
    [] f = "wideMix" -> <<<<110, 111, 116, 40, 97, 108, 108, 40>>, <<110, 111, 116, 40, 110, 111, 116, 40, 99, 41, 41, 44, 100, 44>>, <<>>, <<>>, <<41, 41>>>>
    [] f = "wideInner" -> <<<<97, 110, 121, 40, 97, 108, 108, 40>>, <<97, 110, 121, 40, 41, 44>>, <<>>, <<>>, <<41, 44, 98, 41>>>>
    [] f = "wideInner2" -> <<<<97, 108, 108, 40, 98, 44, 110, 111, 116, 40, 97, 110, 121, 40>>, <<97, 108, 108, 40, 99, 44, 100, 41, 44>>, <<97>>, <<>>, <<41, 41, 44, 99, 41>>>>
    [] f = "wideKv" -> <<<<97, 110, 121, 40>>, <<107, 61, 34, 233, 34, 44, 32>>, <<97>>, <<>>, <<32, 41>>>>
    [] f = "longKey" -> <<<<120>>, <<107>>, <<>>, <<>>, <<>>>>
    [] f = "longVal" -> <<<<102, 101, 97, 116, 117, 114, 101, 61, 34>>, <<233>>, <<>>, <<>>, <<34>>>>
    [] f = "longWs" -> <<<<>>, <<32, 12288>>, <<97>>, <<8232>>, <<>>>>
    [] f = "longPair" -> <<<<97, 110, 121, 40, 98, 44>>, <<107>>, <<32, 61, 32, 34>>, <<40>>, <<34, 41>>>>
    [] f = "zeros" -> <<<<116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 61, 34>>, <<48>>, <<>>, <<>>, <<56, 34>>>>
    [] f = "unclosed" -> <<<<>>, <<97, 108, 108, 40>>, <<>>, <<>>, <<>>>>
    [] f = "unclosedVal" -> <<<<97, 108, 108, 40, 107, 61, 34>>, <<233>>, <<>>, <<>>, <<34, 44>>>>
    [] f = "closes" -> <<<<97>>, <<41>>, <<>>, <<>>, <<>>>>
    [] f = "nestClose" -> <<<<>>, <<110, 111, 116, 40>>, <<97>>, <<41>>, <<41>>>>
    [] f = "notMany" -> <<<<110, 111, 116, 40>>, <<97, 44>>, <<98>>, <<>>, <<41>>>>
    [] f = "notManyFns" -> <<<<97, 108, 108, 40, 110, 111, 116, 40>>, <<97, 108, 108, 40, 41, 44>>, <<97, 110, 121, 40, 41>>, <<>>, <<41, 44>>>>
    [] f = "quote" -> <<<<102, 101, 97, 116, 117, 114, 101, 61, 34>>, <<26085>>, <<>>, <<>>, <<>>>>
    [] f = "roots" -> <<<<97>>, <<44, 98>>, <<>>, <<>>, <<>>>>
    [] f = "rootsFns" -> <<<<98, 44>>, <<97, 108, 108, 40, 41, 44>>, <<>>, <<>>, <<>>>>
    [] f = "stray" -> <<<<>>, <<12288>>, <<233>>, <<>>, <<>>>>
    [] f = "doubleComma" -> <<<<97, 108, 108, 40, 97>>, <<44, 98>>, <<>>, <<>>, <<44, 44, 41>>>>
    [] f = "badInt" -> <<<<116, 97, 114, 103, 101, 116, 95, 112, 111, 105, 110, 116, 101, 114, 95, 119, 105, 100, 116, 104, 61, 34>>, <<49>>, <<>>, <<>>, <<34>>>>
    [] f = "badAtomic" -> <<<<97, 110, 121, 40, 98, 44, 116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 61, 34>>, <<57>>, <<>>, <<>>, <<34, 41>>>>
    [] f = "eqEnd" -> <<<<>>, <<97, 110, 121, 40>>, <<>>, <<>>, <<107, 61>>>>
    [] f = "fnEnd" -> <<<<>>, <<110, 111, 116, 40>>, <<>>, <<>>, <<97, 108, 108>>>>
    [] f = "opens" -> <<<<97, 108, 108>>, <<40>>, <<>>, <<>>, <<>>>>
    [] f = "commas" -> <<<<>>, <<44>>, <<>>, <<>>, <<>>>>
    [] f = "blanks" -> <<<<>>, <<160>>, <<>>, <<>>, <<>>>>
    [] f = "eqs" -> <<<<97>>, <<61>>, <<>>, <<>>, <<>>>>
    [] f = "unknownKey" -> <<<<116, 97, 114, 103, 101, 116, 95>>, <<120>>, <<>>, <<>>, <<32, 61, 32, 34, 34>>>>
    [] f = "deepNot" -> <<<<>>, <<97, 108, 108, 40, 98, 44>>, <<110, 111, 116, 40, 41>>, <<41>>, <<>>>>
    [] f = "words" -> <<<<>>, <<97, 32>>, <<>>, <<>>, <<>>>>
    [] f = "farWs" -> <<<<97, 110, 121, 40>>, <<160>>, <<117, 110, 105, 120, 44, 119, 105, 110, 100, 111, 119, 115, 44, 116, 101, 115, 116, 44, 100, 101, 98, 117, 103, 95, 97, 115, 115, 101, 114, 116, 105, 111, 110, 115, 44, 112, 114, 111, 99, 95, 109, 97, 99, 114, 111, 44, 102, 101, 97, 116, 117, 114, 101, 61, 34, 102, 105, 34, 44, 112, 97, 110, 105, 99, 61, 34, 112, 34, 44, 116, 97, 114, 103, 101, 116, 95, 111, 115, 61, 34, 111, 34, 44, 116, 97, 114, 103, 101, 116, 95, 97, 114, 99, 104, 61, 34, 233, 34, 44, 116, 97, 114, 103, 101, 116, 95, 102, 97, 109, 105, 108, 121, 61, 34, 121, 34, 44, 116, 97, 114, 103, 101, 116, 95, 101, 110, 118, 61, 34, 101, 34, 44, 116, 97, 114, 103, 101, 116, 95, 97, 98, 105, 61, 34, 105, 34, 44, 116, 97, 114, 103, 101, 116, 95, 118, 101, 110, 100, 111, 114, 61, 34, 119, 34, 44, 116, 97, 114, 103, 101, 116, 95, 102, 101, 97, 116, 117, 114, 101, 61, 34, 116, 34, 44, 116, 97, 114, 103, 101, 116, 95, 101, 110, 100, 105, 97, 110, 61, 34, 98, 105, 103, 34, 44, 116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 61, 34, 56, 34, 44, 116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 61, 34, 112, 116, 114, 34, 44, 116, 97, 114, 103, 101, 116, 95, 112, 111, 105, 110, 116, 101, 114, 95, 119, 105, 100, 116, 104, 61, 34, 54, 52, 34, 44, 107, 101, 121, 61, 34, 118, 34, 44, 102, 108, 97, 103>>, <<>>, <<41>>>>
    [] f = "farVal" -> <<<<97, 108, 108, 40, 109, 61, 34>>, <<233>>, <<34, 44, 117, 110, 105, 120, 44, 119, 105, 110, 100, 111, 119, 115, 44, 116, 101, 115, 116, 44, 100, 101, 98, 117, 103, 95, 97, 115, 115, 101, 114, 116, 105, 111, 110, 115, 44, 112, 114, 111, 99, 95, 109, 97, 99, 114, 111, 44, 102, 101, 97, 116, 117, 114, 101, 61, 34, 102, 105, 34, 44, 112, 97, 110, 105, 99, 61, 34, 112, 34, 44, 116, 97, 114, 103, 101, 116, 95, 111, 115, 61, 34, 111, 34, 44, 116, 97, 114, 103, 101, 116, 95, 97, 114, 99, 104, 61, 34, 233, 34, 44, 116, 97, 114, 103, 101, 116, 95, 102, 97, 109, 105, 108, 121, 61, 34, 121, 34, 44, 116, 97, 114, 103, 101, 116, 95, 101, 110, 118, 61, 34, 101, 34, 44, 116, 97, 114, 103, 101, 116, 95, 97, 98, 105, 61, 34, 105, 34, 44, 116, 97, 114, 103, 101, 116, 95, 118, 101, 110, 100, 111, 114, 61, 34, 119, 34, 44, 116, 97, 114, 103, 101, 116, 95, 102, 101, 97, 116, 117, 114, 101, 61, 34, 116, 34, 44, 116, 97, 114, 103, 101, 116, 95, 101, 110, 100, 105, 97, 110, 61, 34, 98, 105, 103, 34, 44, 116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 61, 34, 56, 34, 44, 116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 61, 34, 112, 116, 114, 34, 44, 116, 97, 114, 103, 101, 116, 95, 112, 111, 105, 110, 116, 101, 114, 95, 119, 105, 100, 116, 104, 61, 34, 54, 52, 34, 44, 107, 101, 121, 61, 34, 118, 34, 44, 102, 108, 97, 103>>, <<>>, <<41>>>>
    [] f = "farList" -> <<<<97, 110, 121, 40>>, <<98, 44>>, <<117, 110, 105, 120, 44, 119, 105, 110, 100, 111, 119, 115, 44, 116, 101, 115, 116, 44, 100, 101, 98, 117, 103, 95, 97, 115, 115, 101, 114, 116, 105, 111, 110, 115, 44, 112, 114, 111, 99, 95, 109, 97, 99, 114, 111, 44, 102, 101, 97, 116, 117, 114, 101, 61, 34, 102, 105, 34, 44, 112, 97, 110, 105, 99, 61, 34, 112, 34, 44, 116, 97, 114, 103, 101, 116, 95, 111, 115, 61, 34, 111, 34, 44, 116, 97, 114, 103, 101, 116, 95, 97, 114, 99, 104, 61, 34, 233, 34, 44, 116, 97, 114, 103, 101, 116, 95, 102, 97, 109, 105, 108, 121, 61, 34, 121, 34, 44, 116, 97, 114, 103, 101, 116, 95, 101, 110, 118, 61, 34, 101, 34, 44, 116, 97, 114, 103, 101, 116, 95, 97, 98, 105, 61, 34, 105, 34, 44, 116, 97, 114, 103, 101, 116, 95, 118, 101, 110, 100, 111, 114, 61, 34, 119, 34, 44, 116, 97, 114, 103, 101, 116, 95, 102, 101, 97, 116, 117, 114, 101, 61, 34, 116, 34, 44, 116, 97, 114, 103, 101, 116, 95, 101, 110, 100, 105, 97, 110, 61, 34, 98, 105, 103, 34, 44, 116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 61, 34, 56, 34, 44, 116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 61, 34, 112, 116, 114, 34, 44, 116, 97, 114, 103, 101, 116, 95, 112, 111, 105, 110, 116, 101, 114, 95, 119, 105, 100, 116, 104, 61, 34, 54, 52, 34, 44, 107, 101, 121, 61, 34, 118, 34, 44, 102, 108, 97, 103>>, <<>>, <<41>>>>
    [] f = "farNest" -> <<<<>>, <<110, 111, 116, 40>>, <<97, 108, 108, 40, 117, 110, 105, 120, 44, 119, 105, 110, 100, 111, 119, 115, 44, 116, 101, 115, 116, 44, 100, 101, 98, 117, 103, 95, 97, 115, 115, 101, 114, 116, 105, 111, 110, 115, 44, 112, 114, 111, 99, 95, 109, 97, 99, 114, 111, 44, 102, 101, 97, 116, 117, 114, 101, 61, 34, 102, 105, 34, 44, 112, 97, 110, 105, 99, 61, 34, 112, 34, 44, 116, 97, 114, 103, 101, 116, 95, 111, 115, 61, 34, 111, 34, 44, 116, 97, 114, 103, 101, 116, 95, 97, 114, 99, 104, 61, 34, 233, 34, 44, 116, 97, 114, 103, 101, 116, 95, 102, 97, 109, 105, 108, 121, 61, 34, 121, 34, 44, 116, 97, 114, 103, 101, 116, 95, 101, 110, 118, 61, 34, 101, 34, 44, 116, 97, 114, 103, 101, 116, 95, 97, 98, 105, 61, 34, 105, 34, 44, 116, 97, 114, 103, 101, 116, 95, 118, 101, 110, 100, 111, 114, 61, 34, 119, 34, 44, 116, 97, 114, 103, 101, 116, 95, 102, 101, 97, 116, 117, 114, 101, 61, 34, 116, 34, 44, 116, 97, 114, 103, 101, 116, 95, 101, 110, 100, 105, 97, 110, 61, 34, 98, 105, 103, 34, 44, 116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 61, 34, 56, 34, 44, 116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 61, 34, 112, 116, 114, 34, 44, 116, 97, 114, 103, 101, 116, 95, 112, 111, 105, 110, 116, 101, 114, 95, 119, 105, 100, 116, 104, 61, 34, 54, 52, 34, 44, 107, 101, 121, 61, 34, 118, 34, 44, 102, 108, 97, 103, 41>>, <<41>>, <<>>>>
    [] f = "farWidth" -> <<<<97, 110, 121, 40>>, <<98, 44>>, <<116, 97, 114, 103, 101, 116, 95, 112, 111, 105, 110, 116, 101, 114, 95, 119, 105, 100, 116, 104, 61, 34, 120, 34>>, <<>>, <<41>>>>
    [] f = "farTarget" -> <<<<97, 108, 108, 40>>, <<98, 44>>, <<116, 97, 114, 103, 101, 116, 95, 120, 61, 34, 34>>, <<>>, <<41>>>>
    [] f = "farBare" -> <<<<>>, <<12288>>, <<117, 110, 105, 120, 61, 34, 118, 34>>, <<>>, <<>>>>
    [] f = "farFeature" -> <<<<>>, <<110, 111, 116, 40>>, <<102, 101, 97, 116, 117, 114, 101>>, <<41>>, <<>>>>
    [] f = "farEmpty" -> <<<<97, 110, 121, 40, 107, 61, 34>>, <<233>>, <<34, 44, 116, 97, 114, 103, 101, 116, 95, 102, 101, 97, 116, 117, 114, 101, 61, 34, 34>>, <<>>, <<41>>>>
    [] f = "farNot" -> <<<<97, 110, 121, 40>>, <<98, 44>>, <<110, 111, 116, 40, 41>>, <<>>, <<41>>>>
    [] f = "farQuote" -> <<<<97, 110, 121, 40>>, <<98, 44>>, <<107, 61, 34, 118>>, <<>>, <<>>>>
    [] f = "farOpen" -> <<<<97, 110, 121, 40>>, <<98, 44>>, <<97, 108, 108, 40, 99>>, <<>>, <<>>>>
Families == {"nestNot", "nestAll", "nestAny", "nestMix", "nestMixRev", "nestFns", "nestWrapped", "nestTwo", "wideAll", "wideAny", "wideFns", "wideEmpty", "wideFnLeaf", "wideLeafFn", "wideMix", "wideInner", "wideInner2", "wideKv", "longKey", "longVal", "longWs", "longPair", "zeros", "unclosed", "unclosedVal", "closes", "nestClose", "notMany", "notManyFns", "quote", "roots", "rootsFns", "stray", "doubleComma", "badInt", "badAtomic", "eqEnd", "fnEnd", "opens", "commas", "blanks", "eqs", "unknownKey", "deepNot", "words", "farWs", "farVal", "farList", "farNest", "farWidth", "farTarget", "farBare", "farFeature", "farEmpty", "farNot", "farQuote", "farOpen"}
=============================================================================
