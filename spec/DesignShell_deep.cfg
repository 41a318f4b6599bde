SPECIFICATION Spec
CONSTANT Longest = 4
INVARIANTS OnlyEntriesRun WhatIsPending AnEmptyLineEndsIt SameAsEntries Nothing
CHECK_DEADLOCK FALSE
