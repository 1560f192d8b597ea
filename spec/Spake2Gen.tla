------------------------------ MODULE Spake2Gen -----------------------------
EXTENDS Spake2MC
GenSids == <<"s1", "s2", "s3">>
=============================================================================
