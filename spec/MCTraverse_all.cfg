CONSTANTS MaxKeys = 2  MaxN = 9  ConfKind = "all"  Lack = 0  MaxGrow = 0
  Logs <- MCLogs  Confs <- MCConfs  Absences <- MCAbsences
SPECIFICATION Spec
INVARIANTS NothingElse AllOfIt OnlyItsBlocks NoFalseAlarm NoSilence
PROPERTY Finishes
CHECK_DEADLOCK FALSE
