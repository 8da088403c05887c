SPECIFICATION Spec
CONSTANTS
 Mips = 2
 Layers = 1
 K = 3
 Lays = {"SHADER_RO", "GENERAL"}
 Inits = {"UNDEF", "SHADER_RO"}
 Forces = {FALSE}
INVARIANT Done
PROPERTY Preserved
CHECK_DEADLOCK FALSE
