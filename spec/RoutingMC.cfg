SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT PrintEdge
INVARIANT Holds
CHECK_DEADLOCK FALSE
