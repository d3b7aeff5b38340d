SPECIFICATION Spec
CONSTANTS Depth = 4 Guard = "idle"
INVARIANTS Agrees Synced Linked Owned Emit
PROPERTY Rests
