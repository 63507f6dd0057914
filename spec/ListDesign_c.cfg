SPECIFICATION Spec
CONSTANTS
 Keys = {"a","b"}
 Vals = {1}
 Clients = {1,2}
 Readers = {7}
 MaxIdx = 3
 Crashes = TRUE
 Fails = FALSE
 Compacts = TRUE
 Bugs = {}
INVARIANTS ReturnsRight FetchRight ShowRight NoOrphan LengthRight NoUnderflow
CHECK_DEADLOCK FALSE
