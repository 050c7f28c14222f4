SPECIFICATION Spec
CONSTANTS Initial = 4
          Sizes = {0, 1, 3, 5, 9}
          MaxOps = 5
INVARIANTS InBounds Disjoint ContentKept BumpConsistent FreshBehind LastCanGrow
PROPERTY BlocksKept
VIEW MCView
CHECK_DEADLOCK FALSE
