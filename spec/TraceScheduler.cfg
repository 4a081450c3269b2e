SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Ignored = {}
