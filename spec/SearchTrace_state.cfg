INIT Init
NEXT Next
CONSTANT Aspect = "state"
