INIT IInit
NEXT INext
CHECK_DEADLOCK FALSE
