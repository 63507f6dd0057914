SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS ListWF QueueWF BigWF CrashOk Total
PROPERTY StepsOk
CONSTANTS
  Keys = {}
  Vals = {"v1", "v2"}
  Lists = {}
  Items_ = {}
  Queues = {}
  Bigs = {"B0", "B1"}
  Span = 4
  MaxSize = 6
