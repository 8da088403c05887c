SPECIFICATION Spec
CONSTANTS
 N = 3
 Frames = 2
 Kinds = {"sampled", "outStorage"}
 Imps = {FALSE, TRUE}
 AllOn = TRUE
INVARIANT Safe
INVARIANT Printed
CHECK_DEADLOCK FALSE
