SPECIFICATION Spec
CONSTANTS
 N = 2
 Frames = 2
 Kinds = {"sampled", "sampledC", "inStorage", "ioStorage", "outStorage", "inTransfer", "outTransfer", "ioColour", "outColour"}
 Imps = {FALSE}
 AllOn = TRUE
INVARIANT Safe
INVARIANT Printed
CHECK_DEADLOCK FALSE
