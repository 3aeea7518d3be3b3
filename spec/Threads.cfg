SPECIFICATION Spec
INVARIANTS Free Exclusive Sound Emit
CHECK_DEADLOCK FALSE
