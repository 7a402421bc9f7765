SPECIFICATION Spec
VIEW View
INVARIANTS Agree
