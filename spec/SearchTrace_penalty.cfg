INIT Init
NEXT Next
CONSTANT Aspect = "penalty"
