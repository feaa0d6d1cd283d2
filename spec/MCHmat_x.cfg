SPECIFICATION Spec
CONSTANTS Trees = {"n3c2", "n3c3", "n4c2", "n4c3"} Syms = {"N", "L", "U"} Kinds = {"d", "r"} Emit = TRUE Check = FALSE
INVARIANTS Tiles
