INIT GenInit
NEXT GenNext
