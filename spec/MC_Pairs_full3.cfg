CONSTANTS N = 3 Names = {"a", "b"} Mode = "arithfull"
SPECIFICATION Spec
INVARIANTS Equality Unions Arithmetic Emit
