INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Column <- ColumnFast
  Less <- LessFast
  Compiled <- CompiledFast
INVARIANTS TypeOK NoUnions NamesLegal NamesArePaths Settled Idempotent ReturnsRun Formed Property
