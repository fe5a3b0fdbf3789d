INIT Init
NEXT Next
CONSTANT Aspect = "tabu"
