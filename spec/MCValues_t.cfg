CONSTANTS NSlots = 2 NForeign = 1 MaxLen = 7 Emit = FALSE
CONSTANT Shapes <- Shapes4
SPECIFICATION Spec
VIEW Look
INVARIANTS Owned Fits Sound
PROPERTIES Kept CopyOK MoveOK Frame Outside
