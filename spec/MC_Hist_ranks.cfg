CONSTANTS Start = "ranks" Depth = 2 MaxHeap = 5
SPECIFICATION Spec
INVARIANTS Consistent AllWF Separate Emit
PROPERTIES Framed Grown
