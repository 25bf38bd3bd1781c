CONSTANT MaxLen = 2
INIT Init
NEXT Next
INVARIANTS Concat Identity Assoc TypeSound Counts
CHECK_DEADLOCK FALSE
