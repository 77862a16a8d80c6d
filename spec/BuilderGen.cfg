SPECIFICATION Spec
CONSTANTS Depth = 28 Handles = {1,2,3}
CHECK_DEADLOCK FALSE
