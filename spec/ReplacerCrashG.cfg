SPECIFICATION Spec
CONSTANTS N = 3
          Bad = {}
          Parts = 2
INVARIANTS OldOrNew RefusedStays DoneMeansDone
PROPERTIES Recovers NeverBack
