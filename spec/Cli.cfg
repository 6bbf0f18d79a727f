INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
CONSTANTS
 WidthOf <- WTab
 CtrlV <- CV
 CtrlG <- CG
 CtrlM <- CM
VIEW CView
INVARIANTS CShow OneEach Honest
