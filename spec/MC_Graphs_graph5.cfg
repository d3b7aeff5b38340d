CONSTANTS N = 5 Names = {"a", "b"} Mode = "graph" PatLen = 0
SPECIFICATION Spec
INVARIANTS Traversal Merging TreesMerge Squashing Matching Emit
