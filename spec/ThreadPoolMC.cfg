SPECIFICATION Spec
CONSTANTS Workers = {1, 2} Clients = {1, 2} PerClient = 1 IfFree = FALSE Meet = TRUE
INVARIANTS Exclusive AllDone Served Counted
PROPERTIES Legal Terminates
CHECK_DEADLOCK FALSE
