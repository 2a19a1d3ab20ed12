INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Column <- ColumnFast
  Less <- LessFast
  Compiled <- CompiledFast
