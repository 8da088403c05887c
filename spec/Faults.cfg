SPECIFICATION FSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
