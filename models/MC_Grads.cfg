SPECIFICATION Spec
INVARIANTS One Inf Count Dir
CHECK_DEADLOCK FALSE
