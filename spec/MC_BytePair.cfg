SPECIFICATION Spec
INVARIANTS UsableModels Lossless Shorter
CHECK_DEADLOCK FALSE
