CONSTANTS
  Wide = FALSE
SPECIFICATION Spec
INVARIANT Wins Keeps Merges MergesOnly LastLevel Idempotent Stable Converted
CHECK_DEADLOCK FALSE
