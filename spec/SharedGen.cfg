INIT IInit
NEXT SNext
CHECK_DEADLOCK FALSE
