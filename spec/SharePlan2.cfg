SPECIFICATION Spec
CONSTANTS
 L0 = 2
 L1 = 1
INVARIANT Printed
INVARIANT OneEach
INVARIANT GivenWhatIs
INVARIANT ViewHasImage
CHECK_DEADLOCK TRUE
