INIT Init
NEXT Next
CONSTANT Aspect = "dual"
