SPECIFICATION Spec
CONSTANT MaxDepth = 125
CHECK_DEADLOCK FALSE
