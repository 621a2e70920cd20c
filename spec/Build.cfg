CONSTANTS ROOT = "q"
 DEPTH = 1
INIT Init
NEXT Next
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
