NA = {"C25": "distributional statement about random sampling (Haar uniformity, convergence of estimates): no pre/postcondition on one call decides it"}
NOTES = {}
