SPECIFICATION Spec
CONSTANT MaxVersions = 30
CHECK_DEADLOCK FALSE
