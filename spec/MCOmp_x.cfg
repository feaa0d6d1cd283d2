CONSTANTS NT = 2 NLeaves = 2 NMirror = 1 Critical = TRUE Emit = TRUE
SPECIFICATION Spec
