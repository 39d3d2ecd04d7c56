SPECIFICATION Spec
INVARIANTS OneStatusLine Complete Explicit NoFalseSuccess
PROPERTY Terminates
