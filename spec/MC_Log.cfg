SPECIFICATION Spec
CONSTANTS
  Maxes <- MaxesDef
  Collectors = {"alpha", "beta"}
  Classes = {"pk.Aa", "pk.Ba"}
  Depth = 6
INVARIANTS Bounded MostRecent Ordered OneContext ViewsAgree KeysDistinct
PROPERTIES RefusedUnchanged ReduceKeepsLast
CHECK_DEADLOCK FALSE
