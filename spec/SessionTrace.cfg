SPECIFICATION TSpec
CONSTANTS
  Circ <- TCirc
  Asg <- TAsg
CHECK_DEADLOCK FALSE
