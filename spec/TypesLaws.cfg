INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Commutes CommutesNone Idempotent Identity Antisymmetric Upper Order Least Transitive Associative
