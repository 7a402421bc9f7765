SPECIFICATION Spec
INVARIANTS Once Guard Label SyncOrder
CONSTRAINT Bounded
