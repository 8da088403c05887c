SPECIFICATION Spec
CONSTANTS
 N = 3
 Frames = 1
 Kinds = {"sampled", "sampledC", "ioColour", "outTransfer"}
 Imps = {FALSE}
 AllOn = TRUE
INVARIANT Safe
INVARIANT Printed
CHECK_DEADLOCK FALSE
