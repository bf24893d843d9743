SPECIFICATION Spec
INVARIANTS CachedOK FreshOK CacheOK DateOK
PROPERTIES FrameOK WriteOK StaysOK
CHECK_DEADLOCK FALSE
