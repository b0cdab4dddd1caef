SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Modes = {"hh", "ls"}
  Stims = {0, 300, 600}
  Inhibit = {0, 90}
  Step = 50
  Steps = 30
INVARIANTS Bounded Silent Ordered Links Equals
PROPERTIES Radial Gathers
