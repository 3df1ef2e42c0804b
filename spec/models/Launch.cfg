SPECIFICATION Spec
CONSTANT Default = "numpy"
INVARIANT ModeIsOwn NothingAskedBefore
CHECK_DEADLOCK FALSE
