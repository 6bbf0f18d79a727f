INIT PInit
NEXT PNext
CHECK_DEADLOCK FALSE
CONSTANTS
 WidthOf <- WTab
 CtrlV <- CV
 CtrlG <- CG
 CtrlM <- CM
VIEW PView
INVARIANTS PShow
