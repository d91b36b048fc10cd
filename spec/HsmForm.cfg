SPECIFICATION Spec
INVARIANT MutationsBreak
INVARIANT BasesAreFine
CHECK_DEADLOCK FALSE
