SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS ListWF QueueWF BigWF CrashOk Total
PROPERTY StepsOk
CONSTANTS
  Keys = {"p:k0", "p:k1", "tu32:7"}
  Vals = {"v1", "v2"}
  Lists = {}
  Items_ = {}
  Queues = {}
  Bigs = {}
  Span = 4
  MaxSize = 6
