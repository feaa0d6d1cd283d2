CONSTANTS Full = FALSE
SPECIFICATION Spec
INVARIANTS InvDisjoint InvTiles InvTriangle
