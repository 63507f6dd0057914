SPECIFICATION Spec
CONSTANTS
 Vals = {1,2}
 Clients = {1}
 Readers = {}
 MaxIdx = 2
 Crashes = TRUE
 Fails = TRUE
 Bugs = {}
INVARIANTS ReturnsRight ShowRight LengthRight NoUnderflow
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
