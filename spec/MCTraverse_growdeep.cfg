CONSTANTS MaxKeys = 2  MaxN = 7  ConfKind = "few"  Lack = 0  MaxGrow = 2
  Logs <- MCLogs  Confs <- MCConfs  Absences <- MCAbsences
SPECIFICATION Spec
INVARIANTS NothingElse AllOfIt OnlyItsBlocks NoFalseAlarm NoSilence
CHECK_DEADLOCK FALSE
