CONSTANTS PROP = "ALL" MaxOps = 4 MaxMarks = 2 MaxRetry = 1
SPECIFICATION SpecFair
INVARIANTS DeliveredOnce PerformedIffDelivered LockedWhilePrepared NothingLeft SeenBound SeenAll TakenOnce
PROPERTIES FinalForever
CHECK_DEADLOCK FALSE
