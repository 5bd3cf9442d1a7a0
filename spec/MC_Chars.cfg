SPECIFICATION Spec
CONSTANTS
 LastBlock = 4351
INVARIANTS Emit TilesAll
