SPECIFICATION TraceSpec
ALIAS TraceAlias
VIEW View
CHECK_DEADLOCK TRUE
