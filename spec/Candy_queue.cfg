SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS ListWF QueueWF BigWF CrashOk Total
PROPERTY StepsOk
CONSTANTS
  Keys = {}
  Vals = {"v1", "v2"}
  Lists = {}
  Items_ = {}
  Queues = {"Q0"}
  Bigs = {}
  Span = 3
  MaxSize = 6
