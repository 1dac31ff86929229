SPECIFICATION TraceSpec
INVARIANT TypeOK
