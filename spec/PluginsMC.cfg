SPECIFICATION MSpec
INVARIANT Composed Marked Sourced Unchanged Safe Placed
