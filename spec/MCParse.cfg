INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 WidthOf <- WTab
 CtrlV <- CV
 CtrlG <- CG
 CtrlM <- CM
VIEW View
INVARIANTS Show Nested
