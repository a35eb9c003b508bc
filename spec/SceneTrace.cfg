SPECIFICATION SceneTraceSpec
VIEW TraceView
CHECK_DEADLOCK FALSE
