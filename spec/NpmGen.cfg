INIT NInit
NEXT NNext
CHECK_DEADLOCK FALSE
