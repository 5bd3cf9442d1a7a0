SPECIFICATION Spec
CONSTANTS
  MaxLen = 15
  Alphabet = {"open","close","comma","all","any","not","key"}
  Layout = 0
  Junk = FALSE
  Render = FALSE
INVARIANTS Emit LexAgrees AcceptsGrammar SpansUsable KleeneSound
