INIT Init
NEXT Next
INVARIANT RoundTrip Notations Refuses
