SPECIFICATION Spec
CONSTANTS
 Keys = {"a","b","c"}
 Vals = {1}
 Clients = {1}
 Readers = {}
 MaxIdx = 6
 Crashes = TRUE
 Fails = TRUE
 Compacts = FALSE
 Bugs = {}
INVARIANTS ReturnsRight FetchRight ShowRight NoOrphan LengthRight NoUnderflow
CHECK_DEADLOCK FALSE
