SPECIFICATION Spec
CONSTANTS Lo = 0 Hi = 4 Currents = {0, 1, 2} Drops = 2
INVARIANTS Device Units Offset Again MissingLeavesNoTrace
CHECK_DEADLOCK FALSE
