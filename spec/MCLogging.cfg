CONSTANTS Writers = 2 Levels = {0, 10, 20, 30, 40} Default = 10 MaxLen = 5 Emit = FALSE
SPECIFICATION Spec
INVARIANT Delivered
PROPERTY Quiet
