CONSTANTS NSlots = 3 Kinds = {"dense", "lr", "hier", "sym"} MaxLen = 8 Prelude = 1 Emit = TRUE
SPECIFICATION Spec
