CONSTANTS N = 3 Names = {"a", "b"} Mode = "squash" PatLen = 0
SPECIFICATION Spec
INVARIANTS Traversal Merging TreesMerge Squashing Matching Emit
