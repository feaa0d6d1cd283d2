SPECIFICATION Spec
CONSTANTS Trees = {"n3c2", "n3c3", "n4c2", "n4c3", "n5c2", "n6c2"} Syms = {"N", "L", "U"} Kinds = {"d"} Emit = FALSE Check = TRUE
INVARIANTS Tiles VecOK ProdOK SolveOK LUOK CholOK
