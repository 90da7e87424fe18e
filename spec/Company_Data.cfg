SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Vals = {1, 2}
  Most = 2
  ClassData = TRUE
  ClassQuery = FALSE
  ClassBuffer = FALSE
PROPERTIES Alone1 Alone2
CHECK_DEADLOCK FALSE
