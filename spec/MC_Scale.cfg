SPECIFICATION Spec
CONSTANTS
 MachineMax = 64
 MaxK = 100000
INVARIANTS Emit ClosedForm
