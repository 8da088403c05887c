SPECIFICATION Spec
CONSTANTS
 N = 3
 Frames = 2
 Kinds = {"sampled", "sampledC", "ioColour"}
 Imps = {FALSE}
 AllOn = TRUE
INVARIANT Safe
INVARIANT Printed
CHECK_DEADLOCK FALSE
