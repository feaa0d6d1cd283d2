CONSTANTS Full = TRUE
SPECIFICATION Spec
INVARIANTS InvDisjoint InvTiles InvTriangle
