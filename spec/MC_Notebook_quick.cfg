SPECIFICATION Spec
CONSTANTS Depth = 3 Guard = "idle"
INVARIANTS Agrees Synced Linked Owned Emit
PROPERTY Rests
