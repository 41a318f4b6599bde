SPECIFICATION Spec
INVARIANTS Native Ring Checks Ordered
CHECK_DEADLOCK FALSE
