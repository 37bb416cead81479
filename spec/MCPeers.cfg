SPECIFICATION GSpec
CONSTANTS Mode = "small" MaxOps = 4
INVARIANTS TypeOK SessionKept OneEach NotBoth NoStuckDial BootsKept RetryBound UnkBound NoneLeft
PROPERTIES LimitKept DropOnly RestartKeeps
ACTION_CONSTRAINT PrintAll
CHECK_DEADLOCK FALSE
