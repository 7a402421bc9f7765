SPECIFICATION Spec
INVARIANTS Exact Split
PROPERTY Untouched
VIEW NoLast
