SPECIFICATION Spec
INVARIANTS Faithful Kinds Wider PassedOn Stored Quiet
CHECK_DEADLOCK FALSE
