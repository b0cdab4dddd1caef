SPECIFICATION Spec
CONSTANTS Workers = {1, 2} Clients = {1, 2} PerClient = 2 IfFree = TRUE Meet = FALSE
INVARIANTS Exclusive AllDone Served Counted
PROPERTIES Legal Terminates
CHECK_DEADLOCK FALSE
