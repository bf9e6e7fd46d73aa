SPECIFICATION Spec
CONSTANTS
  Accs = {"a", "b", "c"}
  MaxTime = 2
  MaxProps = 2
INVARIANTS Entrusted SomebodySigns
PROPERTIES OnlyByVote
CHECK_DEADLOCK FALSE
