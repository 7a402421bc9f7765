SPECIFICATION Spec
INVARIANTS Agree RowsBack Stacks Splits NullIsRows
