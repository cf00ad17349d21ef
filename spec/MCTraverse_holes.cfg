CONSTANTS MaxKeys = 2  MaxN = 5  ConfKind = "few"  Lack = 2  MaxGrow = 1
  Logs <- MCLogs  Confs <- MCConfs  Absences <- MCAbsences
SPECIFICATION Spec
INVARIANTS NothingElse AllOfIt OnlyItsBlocks NoFalseAlarm NoSilence
CHECK_DEADLOCK FALSE
