SPECIFICATION Spec
CONSTANTS First = 1
 Last = 600
 Walks = 16
INVARIANTS SunLaws HighLaws AirLaws DayLaws
CHECK_DEADLOCK FALSE
