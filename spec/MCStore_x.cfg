CONSTANTS NSlots = 3 Kinds = {"dense", "lr", "hier", "sym"} MaxLen = 4 Prelude = 2 Emit = TRUE
SPECIFICATION Spec
