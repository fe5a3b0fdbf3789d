INIT Init
NEXT Next
CONSTANT Aspect = "score"
