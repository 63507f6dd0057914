SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS ListWF QueueWF BigWF CrashOk Total
PROPERTY StepsOk
CONSTANTS
  Keys = {}
  Vals = {"v1", "v2"}
  Lists = {"L0"}
  Items_ = {"i1", "i2", "i3", "i4"}
  Queues = {}
  Bigs = {}
  Span = 6
  MaxSize = 6
