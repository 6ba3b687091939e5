SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT PrintEdge
INVARIANT Holds
INVARIANT Waits
INVARIANT Bundled
CHECK_DEADLOCK FALSE
