SPECIFICATION Spec
VIEW View
INVARIANTS ByIdentity Largest Draws
