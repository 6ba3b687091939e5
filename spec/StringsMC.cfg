SPECIFICATION Spec
INVARIANTS Found FromThere UpToThere Cut SplitJoin Replaced Cases
CHECK_DEADLOCK FALSE
