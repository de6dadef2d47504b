SPECIFICATION Spec
CONSTANTS Lo = 0 Hi = 3 Currents = {0, 1} Drops = 1
INVARIANTS Device Units Offset Again MissingLeavesNoTrace
CHECK_DEADLOCK FALSE
