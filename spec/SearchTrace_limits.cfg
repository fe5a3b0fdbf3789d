INIT Init
NEXT Next
CONSTANT Aspect = "limits"
