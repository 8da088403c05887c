SPECIFICATION Spec
CONSTANTS
 Mips = 2
 Layers = 2
 K = 2
 Lays = {"SHADER_RO", "GENERAL", "DST"}
 Inits = {"UNDEF", "SHADER_RO", "DST"}
 Forces = {FALSE, TRUE}
INVARIANT Done
PROPERTY Preserved
CHECK_DEADLOCK FALSE
