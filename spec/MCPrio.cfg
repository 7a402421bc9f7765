SPECIFICATION Spec
INVARIANTS ByIdentity Largest Draws
