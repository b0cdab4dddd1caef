SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Modes = {"hh", "ls"}
  Stims = {0, 150, 300, 600}
  Inhibit = {0, 20, 90}
  Step = 50
  Steps = 160
INVARIANTS Bounded Silent Ordered Links Equals
PROPERTIES Radial Gathers
