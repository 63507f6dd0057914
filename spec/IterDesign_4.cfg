SPECIFICATION Spec
CONSTANTS
 End = 4
 NR = 2
 Width = 2
 Keys = {"a","b","c","d"}
 KeySel <- KeySel1
 KeyRow <- KeyRow1
 Vals = {1}
 MaxMods = 4
 Bugs = {}
INVARIANTS YieldsRight Ends
CHECK_DEADLOCK FALSE
