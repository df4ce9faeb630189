SPECIFICATION Spec
INVARIANT Compatible
INVARIANT NoLostWakeup
INVARIANT Emit
PROPERTY Immutable
PROPERTY Monotone
PROPERTY Isolated
CHECK_DEADLOCK FALSE
