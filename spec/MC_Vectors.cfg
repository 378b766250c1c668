SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Rotation Handed Alignable Angles SignedAngles Projection Distance
