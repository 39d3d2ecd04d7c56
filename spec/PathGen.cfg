SPECIFICATION Spec
CONSTANTS Emit = FALSE  MaxEdits = 0  MaxLen = 6  Names = {"a", "srv", "content", "..", ".", ""}
INVARIANTS Contained NotVacuous
