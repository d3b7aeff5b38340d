CONSTANTS N = 3 Names = {"a", "b"} Mode = "pats" PatLen = 3
SPECIFICATION Spec
INVARIANTS Traversal Merging TreesMerge Squashing Matching Emit
