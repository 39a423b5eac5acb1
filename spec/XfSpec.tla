------------------------------- MODULE XfSpec -------------------------------
EXTENDS XfOps
InitState == [none |-> 0]
Expected(st, e) == XExp(e)
Conforms(st, e) == XOk(e)
After(st, e) == st
=============================================================================
