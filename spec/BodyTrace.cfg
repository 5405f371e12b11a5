SPECIFICATION TraceSpec
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
