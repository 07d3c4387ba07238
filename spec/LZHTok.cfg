SPECIFICATION Spec
VIEW View
INVARIANTS Agree WindowOK SupportedOK
CHECK_DEADLOCK FALSE
