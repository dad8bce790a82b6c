INIT Init
NEXT Next
INVARIANT Conforms
CONSTANTS
  Steps <- TSteps
  Start <- TStart
  Apply <- TApply
  SegSeconds = 10800
  DaySeconds = 86400
  SegPerTable = 32
  SecPerSeg = 8
  Schedules = "events"
CHECK_DEADLOCK FALSE
