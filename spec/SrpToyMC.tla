------------------------------ MODULE SrpToyMC ------------------------------
EXTENDS SrpToy
V3 == 0 .. 3 * N
VFew == (0 .. 20) \cup (250 .. 262) \cup (710 .. 725) \cup (1430 .. 1445) \cup (2155 .. 2160)
        \cup {8 * i : i \in 1 .. 300}
Z12 == 0 .. 12
Zn == 0 .. N - 1
Z30 == 0 .. 30
Z60 == {0, 1, 2, 3, 5, 8, 13, 40, 77, 120, 200, 255, 256, 257, 300, 358, 359, 360, 500, 717, 718}
=============================================================================
