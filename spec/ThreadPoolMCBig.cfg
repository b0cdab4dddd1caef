SPECIFICATION Spec
CONSTANTS Workers = {1, 2, 3} Clients = {1, 2} PerClient = 2 IfFree = FALSE Meet = TRUE
INVARIANTS Exclusive AllDone Served Counted
PROPERTIES Legal Terminates
CHECK_DEADLOCK FALSE
