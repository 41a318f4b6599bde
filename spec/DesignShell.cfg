SPECIFICATION Spec
CONSTANT Longest = 3
INVARIANTS OnlyEntriesRun WhatIsPending AnEmptyLineEndsIt SameAsEntries Nothing
CHECK_DEADLOCK FALSE
