SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Vals = {1, 2}
  Most = 2
  ClassData = FALSE
  ClassQuery = FALSE
  ClassBuffer = TRUE
PROPERTIES Alone1 Alone2
CHECK_DEADLOCK FALSE
