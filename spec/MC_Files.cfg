SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OutsideStays FoldersStay Disjoint OnlyLinksDoubtful Suffixed Complete Deep Shallow Again
