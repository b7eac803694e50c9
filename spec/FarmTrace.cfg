INIT Init
NEXT Next
VIEW Place
CHECK_DEADLOCK FALSE
