SPECIFICATION Spec
CONSTANTS
 K = 4
 Caches = {1, 2}
 Views = {1, 2}
 Smp = TRUE
INVARIANT NoOrphan
INVARIANT OwnersAlive
INVARIANT NothingLeft
INVARIANT CanDrop
INVARIANT Printed
CHECK_DEADLOCK FALSE
