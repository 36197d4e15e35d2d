SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
CONSTANT Enforce = {"C01"}
