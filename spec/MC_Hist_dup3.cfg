CONSTANTS Start = "dup" Depth = 3 MaxHeap = 5
SPECIFICATION Spec
INVARIANTS Consistent AllWF Separate Emit
PROPERTIES Framed Grown
