INIT RInit
NEXT RNext
CHECK_DEADLOCK FALSE
CONSTANTS
 WidthOf <- WTab
 CtrlV <- CV
 CtrlG <- CG
 CtrlM <- CM
VIEW RView
INVARIANTS RShow RFaithful
