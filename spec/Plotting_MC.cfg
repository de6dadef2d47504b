SPECIFICATION Spec
CONSTANT MaxCalls = 3
INVARIANTS OneContent OpenIsWanted BatchComplete TopicsHaveFolders
PROPERTY NothingLost
CHECK_DEADLOCK FALSE
