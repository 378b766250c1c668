SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Known Nearest Significant Signed Notation TheOnly Again Ordered TenWide InOrder
