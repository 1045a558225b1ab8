SPECIFICATION MSpec
CONSTANTS MaxToks = 4
 Short = TRUE
INVARIANTS Emit TypeOk NoEarlyOutput Outcome Named
CHECK_DEADLOCK FALSE
