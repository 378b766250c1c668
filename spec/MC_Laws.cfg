SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS UnitOut Reflection Snell OneSnell Imaging Diffraction
