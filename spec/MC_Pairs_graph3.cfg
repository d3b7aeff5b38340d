CONSTANTS N = 3 Names = {"a", "b"} Mode = "graph"
SPECIFICATION Spec
INVARIANTS Equality Unions Arithmetic Emit
