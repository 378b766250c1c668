SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Recurrence Growing Dilute Sommerfeld Accepted Scaling
