SPECIFICATION Spec
CONSTANTS Accs = {a, b, c, d}
 Period = 1
 MaxTime = 1
 MaxProps = 2
 MaxPolls = 0

INVARIANTS Ok Faithful Lawful Counted
PROPERTIES GovByVote NothingByRejection HistoryGrows PollRight
CHECK_DEADLOCK FALSE
