CONSTANTS NSlots = 3 Kinds = {"hier", "sym"} MaxLen = 5 Prelude = 2 Emit = FALSE
SPECIFICATION Spec
INVARIANTS NoAlias NoLoss
PROPERTIES Frame Faithful
