SPECIFICATION Spec
CONSTANTS N = 4 Depth = 3 Vals = {0, 1, 2}
INVARIANTS Accounted OnceShown RootsStay Below Undone Conserved PrunedRight Start Emit
