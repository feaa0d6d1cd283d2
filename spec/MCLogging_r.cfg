CONSTANTS Writers = 4 Levels = {0, 10, 20, 30, 40} Default = 10 MaxLen = 20 Emit = TRUE
SPECIFICATION Spec
