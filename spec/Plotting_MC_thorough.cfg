SPECIFICATION Spec
CONSTANT MaxCalls = 5
INVARIANTS OneContent OpenIsWanted BatchComplete TopicsHaveFolders
PROPERTY NothingLost
CHECK_DEADLOCK FALSE
