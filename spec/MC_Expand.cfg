SPECIFICATION Spec
CONSTANTS Wide = FALSE
  AllOrders = FALSE
INVARIANTS Complete EachOnce SameOrder Untouched Agrees NoDeadEnd
CHECK_DEADLOCK FALSE
