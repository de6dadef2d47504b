SPECIFICATION Spec
CONSTANTS N = 8
 Max = 512
INVARIANTS Bracketed Found
PROPERTY Ends
