------------------------------ MODULE ConfigGen ------------------------------
EXTENDS Config, Json
VARIABLE c
Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Out == PrintT("CONFIG " \o ToJson(c))
=============================================================================
