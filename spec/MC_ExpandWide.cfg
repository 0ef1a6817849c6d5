SPECIFICATION Spec
CONSTANTS Wide = TRUE
  AllOrders = FALSE
INVARIANTS Complete EachOnce SameOrder Untouched Agrees NoDeadEnd
CHECK_DEADLOCK FALSE
