SPECIFICATION Spec
INVARIANTS Sampled Original
