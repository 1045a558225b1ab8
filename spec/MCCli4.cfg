SPECIFICATION MSpec
CONSTANTS MaxToks = 4
 Short = TRUE
INVARIANTS TypeOk NoEarlyOutput Outcome Named
CHECK_DEADLOCK FALSE
