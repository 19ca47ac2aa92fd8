SPECIFICATION Spec
CONSTANTS
  NPeaks = 3
  MaxW = 3
  Tries = 3
  Budget = 2
  Lines <- L2
  Mms = {0, 3}
  WithBase = TRUE
INVARIANTS OneToOne WithinTolerance Thresholds NothingFound OnlyPlausible Bounded EnoughTrials LowestScore BaseIsBeaten BaseKept
PROPERTY Ends
CHECK_DEADLOCK FALSE
