INIT Init
NEXT Next
INVARIANT Sign
CONSTANTS
  Emitting = TRUE
  Rates <- MCRates
  Amounts <- GenAmounts
  Whole <- MCWhole
