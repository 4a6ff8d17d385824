SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Emit = TRUE
  Phase = "read"
INVARIANTS OnlyFinished StrIsSnapshot SuffixOnce FoundAgain EmitCase
PROPERTIES NothingLost ClosedIsFinal ReadersPure
CHECK_DEADLOCK FALSE
