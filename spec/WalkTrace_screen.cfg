INIT Init
NEXT Next
CONSTANT Aspect = "screen"
