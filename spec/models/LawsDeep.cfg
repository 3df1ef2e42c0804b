SPECIFICATION Spec
CONSTANTS First = 1
 Last = 9000
 Walks = 16
INVARIANTS SunLaws HighLaws AirLaws DayLaws
CHECK_DEADLOCK FALSE
