SPECIFICATION Spec
CONSTANTS
  NPs = {1, 2, 3, 4}
  Ns = {2, 3, 4, 5, 6, 7, 8}
  Kinds = {"gmv", "ras", "asm"}
  MaxOps = 6
  Emit = TRUE
