INIT Init
NEXT Next
CONSTANT MatOps = {"At"}
CONSTANT VecOps = {"At"}
CONSTANT LogOps = {"At"}
CONSTANT MatK = {"dn", "csr", "csc"}
CONSTANT VecK = {"dvn", "sv"}
CONSTANT LogK = {"dm", "dv"}
CHECK_DEADLOCK FALSE
