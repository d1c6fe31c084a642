SPECIFICATION Spec
CONSTANT Thorough <- IsThorough
VIEW View
INVARIANT Holds
INVARIANT Emit
CHECK_DEADLOCK FALSE
