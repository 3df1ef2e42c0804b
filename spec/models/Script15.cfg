SPECIFICATION Spec
CONSTANTS MaxLen = 15
 FirstMonths = {1, 2, 7, 11, 12}
INVARIANTS Refuses Accepts RowsAreYears Emit
CHECK_DEADLOCK FALSE
