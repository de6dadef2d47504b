SPECIFICATION Spec
CONSTANTS N = 6
 Max = 128
INVARIANTS Bracketed Found
PROPERTY Ends
