SPECIFICATION HostTraceSpec
CHECK_DEADLOCK FALSE
