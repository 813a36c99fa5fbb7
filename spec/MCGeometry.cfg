SPECIFICATION Spec
INVARIANTS Commutes Distributes Agrees Sized
CHECK_DEADLOCK FALSE
