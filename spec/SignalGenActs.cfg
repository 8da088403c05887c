SPECIFICATION Spec
CONSTANTS
 Conns = {1, 2, 3}
 Sigs = {1}
 K = 3
 Acts = {"none", "self", "other", "connect", "emit"}
INVARIANTS Design Done
CHECK_DEADLOCK FALSE
