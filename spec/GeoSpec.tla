------------------------------ MODULE GeoSpec ------------------------------
EXTENDS GeoOps
InitState == [none |-> 0]
Partial == {"min_axis", "max_axis", "is_normal", "approx", "approx_tol", "angle", "angle_pt", "angle_to", "signed_angle", "bapprox", "support", "segment", "smits", "xform", "longest", "edges", "quantized", "hsv", "rgbe"}
Expected(st, e) == IF e.a[2] \in Partial \/ (e.a[1] = "col" /\ e.a[2] = "cmp") THEN "any admissible answer" ELSE GExp(e)
Conforms(st, e) == GOk(e)
After(st, e) == st
============================================================================
