SPECIFICATION GenSpec
CONSTANTS Emit = TRUE  MaxEdits = 3  MaxLen = 6  Names = {"a"}
