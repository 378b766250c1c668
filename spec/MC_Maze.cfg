SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Trajectory Budget Splitting Nearest Ended Listing Recorded Deterministic Unit Reversible Refines
PROPERTIES TrajectoryGrows FlightStraight Final
