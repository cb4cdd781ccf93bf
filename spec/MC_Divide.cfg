INIT Init
NEXT Next
INVARIANTS FixedFirst DynamicNext WithinOneCell AllHandedOut NeverTooMuch ZeroGetsNothing LargestFractions MoreWeightMoreSpace
CHECK_DEADLOCK FALSE
