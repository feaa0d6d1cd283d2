CONSTANTS NT = 3 NLeaves = 4 NMirror = 2 Critical = TRUE Emit = TRUE
SPECIFICATION Spec
