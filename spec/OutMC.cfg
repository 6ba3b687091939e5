SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT PrintEdge
INVARIANT Holds Root PerCall Details Silent
CHECK_DEADLOCK FALSE
