SPECIFICATION Spec
VIEW View
INVARIANTS Amount First2 Progress
