SPECIFICATION MSpec
CONSTANTS MaxToks = 3
 Short = FALSE
INVARIANTS TypeOk NoEarlyOutput Outcome Named
PROPERTY Ends
CHECK_DEADLOCK FALSE
