SPECIFICATION Spec
CONSTANTS
 End = 2
 Step = 2
 NR = 2
 Width = 2
 Keys = {"a","b","c"}
 KeySel <- KeySel1
 KeyRow <- KeyRow1
 Vals = {1}
 Clients = {1}
 MaxId = 8
 MaxFaults = 0
 Bugs = {}
INVARIANTS NoPanic Correct Covered WellPlaced Counted Anchored
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
