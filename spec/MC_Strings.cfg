SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Pieces = {"all","a","1","(",")",",","=","q","sp","ideo","e'","cfg"}
 Render = FALSE
 EmitLex = TRUE
 EmitParse = TRUE
INVARIANTS Emit TilesText AcceptsGrammar SpansUsable
