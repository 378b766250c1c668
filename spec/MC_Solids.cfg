SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS FirstChangeIsMet Parity Refines
