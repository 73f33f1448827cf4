SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Vaults Locked Book Issued Config Seats Leaves Winds
PROPERTY Stepwise
