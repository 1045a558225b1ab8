SPECIFICATION Spec
INVARIANTS RoundTrip Damage
CHECK_DEADLOCK FALSE
