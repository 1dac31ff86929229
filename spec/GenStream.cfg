SPECIFICATION Spec
CONSTANTS Block = 64  LenBytes = 8  MaxBlocks = 2
INVARIANT Streaming
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
