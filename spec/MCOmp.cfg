CONSTANTS NT = 3 NLeaves = 3 NMirror = 1 Critical = TRUE Emit = FALSE
SPECIFICATION Spec
INVARIANTS OneAtATime ExactlyOnce
PROPERTIES Finishes
