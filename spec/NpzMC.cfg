SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Emit = TRUE
  Phase = "write"
INVARIANTS OnlyFinished StrIsSnapshot SuffixOnce FoundAgain EmitCase
PROPERTIES NothingLost ClosedIsFinal ReadersPure
CHECK_DEADLOCK FALSE
