SPECIFICATION Spec
CONSTANTS
 Vals = {1}
 Clients = {1,2}
 Readers = {7}
 MaxIdx = 1
 Crashes = TRUE
 Fails = FALSE
 Bugs = {}
INVARIANTS ReturnsRight ShowRight LengthRight NoUnderflow
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
