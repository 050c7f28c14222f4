SPECIFICATION Spec
CONSTANTS Initial = 16
          Sizes = {0, 1, 2, 7, 15, 16, 17, 33, 50}
          MaxOps = 25
INVARIANTS Emit InBounds Disjoint ContentKept
CHECK_DEADLOCK FALSE
