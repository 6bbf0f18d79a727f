INIT BInit
NEXT BNext
CHECK_DEADLOCK FALSE
CONSTANTS
 WidthOf <- WTab
 CtrlV <- CV
 CtrlG <- CG
VIEW BView
INVARIANTS BShow BNested Depths
