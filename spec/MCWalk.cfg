INIT WInit
NEXT WNext
CHECK_DEADLOCK FALSE
CONSTANTS
 WidthOf <- WTab
 CtrlV <- CV
 CtrlG <- CG
 CtrlM <- CM
VIEW WView
INVARIANTS WShow Nested WalkOK
