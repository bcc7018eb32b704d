CONSTANTS Seeds = {1, 2, 3}
Kinds = {"linear", "act", "sum", "addslice", "embed", "gap", "ln", "mha", "flash", "frob", "cross", "chain"}
SPECIFICATION Spec
INVARIANTS Gradients Frame
CHECK_DEADLOCK FALSE
