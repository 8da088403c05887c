SPECIFICATION Spec
CONSTANTS
 Mips = 3
 Layers = 2
 K = 3
 Lays = {"SRC", "GENERAL"}
INVARIANT Done
PROPERTY Preserved
CHECK_DEADLOCK FALSE
