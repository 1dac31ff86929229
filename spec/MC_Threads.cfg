SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}  Calls = 2  Private = TRUE
PROPERTIES Atomic OwnArgument
CHECK_DEADLOCK FALSE
