SPECIFICATION Spec
CONSTANTS N = 3
          Bad = {3}
          Parts = 2
INVARIANTS OldOrNew RefusedStays DoneMeansDone
PROPERTIES Recovers NeverBack
