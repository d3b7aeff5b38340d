CONSTANTS N = 2 Names = {"a", "b"} Mode = "arith"
SPECIFICATION Spec
INVARIANTS Equality Unions Arithmetic Emit
