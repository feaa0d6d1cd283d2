SPECIFICATION Spec
CONSTANTS
  NPs = {1, 2, 3}
  Sizes = {1, 2}
  Shapes = {"strip", "blocks", "over", "uneven"}
  Calls <- AllCalls
  Len1 = 1
  Emit = FALSE
INVARIANT Correct
INVARIANT Consistent
INVARIANT NoStall
VIEW View
