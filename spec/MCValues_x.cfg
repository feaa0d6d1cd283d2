CONSTANTS NSlots = 2 NForeign = 1 MaxLen = 3 Emit = TRUE
CONSTANT Shapes <- Shapes4
SPECIFICATION Spec
