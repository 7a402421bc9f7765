SPECIFICATION Spec
INVARIANTS Leaves Nodes Total Ranges PrefixSearch
