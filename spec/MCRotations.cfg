SPECIFICATION Spec
CONSTANT MaxNorm = 60
INVARIANTS Proper MatchesRodrigues FixesAxis Composes Counterclockwise EulerOk AlignOk Emit
CHECK_DEADLOCK FALSE
