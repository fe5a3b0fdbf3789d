INIT Init
NEXT Next
CONSTANT Aspect = "switch"
