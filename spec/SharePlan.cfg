SPECIFICATION Spec
CONSTANTS
 L0 = 1
 L1 = 1
INVARIANT Printed
INVARIANT OneEach
INVARIANT GivenWhatIs
INVARIANT ViewHasImage
CHECK_DEADLOCK TRUE
