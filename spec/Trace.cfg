SPECIFICATION Spec
INVARIANT Accepted
VIEW View
ALIAS Show
CONSTANT Props = {"C01"}
CHECK_DEADLOCK FALSE
