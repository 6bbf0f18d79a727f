SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Workers = {"a", "b", "c"}
 Inputs <- Ins
 Shared = TRUE
 MaxCalls = 5
INVARIANTS Isolated
