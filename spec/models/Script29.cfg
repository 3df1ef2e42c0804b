SPECIFICATION Spec
CONSTANTS MaxLen = 29
 FirstMonths = {1,2,3,4,5,6,7,8,9,10,11,12}
INVARIANTS Refuses Accepts RowsAreYears Emit
CHECK_DEADLOCK FALSE
