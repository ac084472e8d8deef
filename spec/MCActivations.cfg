SPECIFICATION Spec
CONSTANTS
  Step = 500
INVARIANTS Odd Half Twice Increasing ZeroIsFixed NoFlip Asymptote GateLimit Slope Emit
CHECK_DEADLOCK FALSE
