SPECIFICATION Spec
VIEW AV
INVARIANTS MostRecent Stats Reports Chains Unf Dense Isolated OnlyRunning
