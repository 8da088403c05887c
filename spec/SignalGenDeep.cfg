SPECIFICATION Spec
CONSTANTS
 Conns = {1, 2, 3}
 Sigs = {1}
 K = 5
 Acts = {"none"}
INVARIANTS Design Done
CHECK_DEADLOCK FALSE
