SPECIFICATION Spec
VIEW View
INVARIANTS Sampled Original
