SPECIFICATION Spec
CONSTANTS Cap = 0 CanBreak = FALSE Canonical = TRUE ExtLen = 128 Sessions <- FromFile
INVARIANTS WellFormedSession CorrectA CorrectB Completes NoFalseFailure InStep InputLabels OffsetSecret NoLabelTwice Emit
CHECK_DEADLOCK TRUE
