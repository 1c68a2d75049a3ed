INIT Init
NEXT Next
INVARIANT Sign OrderIrrelevant RoundTrip Canonical
CONSTANTS
  Emitting = FALSE
  Rates <- MCRates
  Amounts <- MCAmounts
  Whole <- MCWhole
