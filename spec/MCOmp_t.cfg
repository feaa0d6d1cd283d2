CONSTANTS NT = 4 NLeaves = 3 NMirror = 2 Critical = TRUE Emit = FALSE
SPECIFICATION Spec
INVARIANTS OneAtATime ExactlyOnce
