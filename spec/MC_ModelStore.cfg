CONSTANTS MaxSteps = 5
 MaxLayers = 4
SPECIFICATION Spec
INVARIANTS Kept Known
PROPERTY NoLoss
CHECK_DEADLOCK FALSE
