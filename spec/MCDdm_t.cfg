SPECIFICATION Spec
CONSTANTS
  NPs = {2, 3}
  Ns = {2, 3, 4}
  Kinds = {"gmv", "ras", "asm"}
  MaxOps = 3
  Emit = FALSE
INVARIANT Right
INVARIANT NoStall
INVARIANT Unity
INVARIANT Once
