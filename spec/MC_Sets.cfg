SPECIFICATION Spec
CONSTANTS
 Kind = "atomic"
 MaxLen = 3
INVARIANTS Emit Extensional
