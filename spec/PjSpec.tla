------------------------------- MODULE PjSpec -------------------------------
EXTENDS PjOps
InitState == [none |-> 0]
Expected(st, e) == JExp(e)
Conforms(st, e) == JOk(e)
After(st, e) == st
=============================================================================
