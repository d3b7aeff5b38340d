SPECIFICATION Spec
CONSTANTS
 N = 2
 Rows = 3
 Cap = 1
 Join = "before"
 Slots = "bypid"
INVARIANTS TypeOK Framing Partition Correct Drained 

