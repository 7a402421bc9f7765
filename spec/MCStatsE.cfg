SPECIFICATION SpecE
VIEW View
INVARIANTS Exact
