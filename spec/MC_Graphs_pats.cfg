CONSTANTS N = 3 Names = {"a", "b"} Mode = "pats" PatLen = 2
SPECIFICATION Spec
INVARIANTS Traversal Merging TreesMerge Squashing Matching Emit
