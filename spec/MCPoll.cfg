SPECIFICATION Spec
CONSTANTS Accs = {a, b, c}
 Period = 2
 MaxTime = 3
 MaxProps = 0
 MaxPolls = 2

INVARIANTS Ok Faithful Lawful Counted
PROPERTIES GovByVote NothingByRejection HistoryGrows PollRight
CHECK_DEADLOCK FALSE
