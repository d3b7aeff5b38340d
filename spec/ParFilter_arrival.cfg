SPECIFICATION Spec
CONSTANTS
 N = 3
 Rows = 4
 Cap = 1
 Join = "after"
 Slots = "arrival"
INVARIANTS TypeOK Framing Partition Correct Drained 

