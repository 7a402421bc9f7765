SPECIFICATION Spec
