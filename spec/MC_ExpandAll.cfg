SPECIFICATION Spec
CONSTANTS Wide = FALSE
  AllOrders = TRUE
INVARIANTS Complete EachOnce SameOrder Untouched Agrees NoDeadEnd
CHECK_DEADLOCK FALSE
