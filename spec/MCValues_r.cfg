CONSTANTS NSlots = 3 NForeign = 2 MaxLen = 16 Emit = TRUE
CONSTANT Shapes <- Shapes4
SPECIFICATION Spec
