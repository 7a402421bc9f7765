SPECIFICATION Spec
VIEW View
INVARIANTS Guard Label SyncOrder
