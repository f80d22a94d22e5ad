SPECIFICATION Spec
INVARIANT InvFps
CHECK_DEADLOCK FALSE
