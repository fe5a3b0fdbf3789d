INIT Init
NEXT Next
CONSTANT Aspect = "legal"
