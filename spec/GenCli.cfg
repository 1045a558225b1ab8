SPECIFICATION MSpec
CONSTANTS MaxToks = 3
 Short = FALSE
INVARIANTS Emit TypeOk NoEarlyOutput Outcome Named
CHECK_DEADLOCK FALSE
