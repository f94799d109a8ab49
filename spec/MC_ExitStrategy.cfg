CONSTANTS MaxEpochs = 5
 MaxLoss = 4
SPECIFICATION Spec
INVARIANTS StateIsHistory NoFalseStop NotEarly StopsInTime PatienceKept LowestBound
CHECK_DEADLOCK FALSE
