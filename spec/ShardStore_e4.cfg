SPECIFICATION Spec
CONSTANTS
 End = 4
 Step = 4
 NR = 2
 Width = 2
 Keys = {"a","d"}
 KeySel <- KeySel1
 KeyRow <- KeyRow1
 Vals = {1}
 Clients = {1}
 MaxId = 10
 MaxFaults = 0
 Bugs = {}
INVARIANTS NoPanic Correct Covered WellPlaced Counted Anchored
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
