SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  Worths <- WorthSet
INVARIANTS Live Rounds Cost BestStays BestOfRound Answer Less
CHECK_DEADLOCK FALSE
