SPECIFICATION Spec
INVARIANTS MostRecent Stats Reports Chains Unf Dense Isolated OnlyRunning
