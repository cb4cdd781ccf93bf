SPECIFICATION Spec
INVARIANT Accepted
ALIAS Short
