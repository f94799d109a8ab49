SPECIFICATION Spec
CONSTANTS
 Values <- ValueSet
 Shapes <- ShapeSet
 MaxSteps = 2
INVARIANTS Involutions Product Neutral Commutes Middle SumKept Shaped
CHECK_DEADLOCK FALSE
