INIT Init
NEXT Next
INVARIANT Agree Export
