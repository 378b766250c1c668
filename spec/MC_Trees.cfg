SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Forest Faithful Printable
PROPERTIES Local
