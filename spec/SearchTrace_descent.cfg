INIT Init
NEXT Next
CONSTANT Aspect = "descent"
