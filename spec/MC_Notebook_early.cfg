SPECIFICATION Spec
CONSTANTS Depth = 4 Guard = "kernel"
INVARIANTS Agrees Synced Linked Owned 

