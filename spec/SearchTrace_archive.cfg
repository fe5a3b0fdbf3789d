INIT Init
NEXT Next
CONSTANT Aspect = "archive"
