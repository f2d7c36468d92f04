SPECIFICATION Spec
INVARIANT Anchored
