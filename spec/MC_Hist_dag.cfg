CONSTANTS Start = "dag" Depth = 2 MaxHeap = 5
SPECIFICATION Spec
INVARIANTS Consistent AllWF Separate Emit
PROPERTIES Framed Grown
