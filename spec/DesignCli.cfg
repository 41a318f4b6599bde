SPECIFICATION Spec
INVARIANTS InOrder ReadsInput Reports AtOnce OneShell
PROPERTY Ends
CHECK_DEADLOCK FALSE
