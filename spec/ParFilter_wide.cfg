SPECIFICATION Spec
CONSTANTS
 N = 4
 Rows = 3
 Cap = 2
 Join = "after"
 Slots = "bypid"
INVARIANTS TypeOK Framing Partition Correct Drained 
PROPERTY Terminates
