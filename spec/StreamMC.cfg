SPECIFICATION Spec
INVARIANTS CutsDoNotMatter Prefix
CHECK_DEADLOCK FALSE
