CONSTANTS MaxN = 3
 MaxEpochs = 2
 MaxLoss = 1
SPECIFICATION Spec
INVARIANTS Evenly Updates NeverRefusedUsable KeptIsBest BatchBound
CHECK_DEADLOCK FALSE
