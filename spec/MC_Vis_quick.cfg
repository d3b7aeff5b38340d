SPECIFICATION Spec
CONSTANTS N = 3 Depth = 3 Vals = {0, 2}
INVARIANTS Accounted OnceShown RootsStay Below Undone Conserved PrunedRight Start Emit
