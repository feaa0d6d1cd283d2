SPECIFICATION Spec
CONSTANTS
  NPs = {1, 2, 3, 4, 5}
  Sizes = {1, 2, 3}
  Shapes = {"strip", "blocks", "over", "uneven"}
  Calls <- AllCalls
  Len1 = 4
  Emit = TRUE
