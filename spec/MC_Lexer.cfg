CONSTANTS Alphabet = {97, 116, 34, 92, 46, 49, 35, 10, 59}
 MaxLen = 4
SPECIFICATION Spec
INVARIANTS NothingLost NoEmpty NoSplitWord Agrees FailsTogether
CHECK_DEADLOCK FALSE
