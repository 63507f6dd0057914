SPECIFICATION Spec
CONSTANTS
 End = 2
 NR = 1
 Width = 4
 Keys = {"a","b","c"}
 KeySel <- KeySel2
 KeyRow <- KeyRow2
 Vals = {1,2}
 MaxMods = 2
 Bugs = {}
INVARIANTS YieldsRight Ends
CHECK_DEADLOCK FALSE
