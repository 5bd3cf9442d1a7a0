SPECIFICATION Spec
CONSTANTS
 UseContexts = {1,2,3,4,5,6,7,8,9,10,11,12,13}
 Render = FALSE
INVARIANTS Emit AcceptsGrammar SpansUsable LegalForms
