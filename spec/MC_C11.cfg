INIT Init
NEXT Next
INVARIANTS Legal Found Strict
CONSTANTS
  SegSeconds = 21600
  DaySeconds = 86400
  SegPerTable = 3
  SecPerSeg = 2
  FirstDay = 17000
  MCItems = 2
  Starts = {0, 21599, 21600, 50000, 64800, 86399, 86400, 129600}
CHECK_DEADLOCK FALSE
