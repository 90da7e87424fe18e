SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Vals = {1, 2}
  Most = 3
  ClassData = FALSE
  ClassQuery = FALSE
  ClassBuffer = FALSE
PROPERTIES Alone1 Alone2
CHECK_DEADLOCK FALSE
