SPECIFICATION Spec
INVARIANTS Amount First2 Progress Chain Own NoLoss Recur NoBias
