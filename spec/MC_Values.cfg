SPECIFICATION Spec
INVARIANTS Emit Order RoundTrip
