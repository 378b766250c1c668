SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Colour Moments LeastSquares Smooth Constant Mean First LogLog
