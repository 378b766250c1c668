SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Round Rectangles NamesApart Sides Round2 Images Axes Figure
