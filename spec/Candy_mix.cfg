SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS ListWF QueueWF BigWF CrashOk Total
PROPERTY StepsOk
CONSTANTS
  Keys = {"p:n"}
  Vals = {"v1"}
  Lists = {"n", "m"}
  Items_ = {"n", "i"}
  Queues = {"n"}
  Bigs = {"b"}
  Span = 2
  MaxSize = 3
