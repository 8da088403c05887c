SPECIFICATION Spec
CONSTANTS
 N = 2
 Frames = 2
 Kinds = {"sampled", "outStorage", "outTransfer"}
 Imps = {FALSE, TRUE}
 AllOn = FALSE
INVARIANT Safe
INVARIANT Printed
CHECK_DEADLOCK FALSE
