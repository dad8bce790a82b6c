SPECIFICATION Spec
CONSTANTS
  CcMod = 16
  Workers = {1, 2}
  MaxPackets = 8
  OneScratch = FALSE
INVARIANTS Apart OwnOutput NeverMixes
PROPERTIES Serves
CHECK_DEADLOCK FALSE
