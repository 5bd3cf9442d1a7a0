SPECIFICATION Spec
CONSTANTS
  MaxLen = 11
  Alphabet = {"open","close","comma","all","any","not","key","unix","eq","val"}
  Layout = 0
  Junk = FALSE
  Render = FALSE
INVARIANTS EmitVariants VariantsAgree
