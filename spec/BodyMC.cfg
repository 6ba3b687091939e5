SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT ReadRight
INVARIANT StoredRight
INVARIANT UsedRight
