------------------------------ MODULE SrpGen --------------------------------
EXTENDS SrpMC
GenC == <<"c1", "c2">>
GenS == <<"s1", "s2">>
=============================================================================
