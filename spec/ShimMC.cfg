SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT PrintEdge
INVARIANT Holds BarrierCounts TokensUnique NeverStuck Quiet OneEach
CHECK_DEADLOCK FALSE
