SPECIFICATION Spec
CONSTANTS
  NPs = {1, 2, 3}
  Ns = {1, 2, 3}
  Kinds = {"gmv", "ras", "asm"}
  MaxOps = 3
  Emit = FALSE
INVARIANT Right
INVARIANT NoStall
INVARIANT Unity
INVARIANT Once
