INIT Init
NEXT Next
CONSTANT Aspect = "incumbent"
