SPECIFICATION Spec
CONSTANTS Block = 128  LenBytes = 16  MaxBlocks = 2
INVARIANT Streaming
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
