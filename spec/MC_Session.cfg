CONSTANTS
  MaxObj = 2
  Depth = 2
  Start <- StartDef
SPECIFICATION Spec
VIEW View
INVARIANT ValidObjs Concrete NoTrace Registered ExactInstances LevelsTotal LowDefaults
PROPERTY NoSideEffect OwnOnly Copies Best NoneIff Consumed Reused Isolated
CHECK_DEADLOCK FALSE
