#!/usr/bin/env python3-vt
"""Writes spec/SrpGroups.tla.  The moduli of 3072 bits and more are computed from the formula
2^n - 2^(n-64) - 1 + 2^64 * (floor(2^(n-130) * pi) + c) of RFC 3526, from which RFC 5054 takes them;
the three smaller ones are those printed in RFC 5054, appendix A.  All are checked to be safe primes
with the generator a primitive root."""
import mpmath, os
from sympy import isprime
G = {1024: 2, 1536: 2, 2048: 2, 3072: 5, 4096: 5, 6144: 5, 8192: 19}
OFF = {3072: 1690314, 4096: 240904, 6144: 929484, 8192: 4743158}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for b, g in G.items():
    if b in OFF:
        mpmath.mp.prec = b + 200
        n = 2**b - 2**(b - 64) - 1 + 2**64 * (int(mpmath.floor(mpmath.pi * mpmath.mpf(2)**(b - 130))) + OFF[b])
    else:
        n = int(open(os.path.join(V, "tools", f"rfc5054-{b}.txt")).read().replace("\n", "").replace(" ", ""), 16)
    q = (n - 1) // 2
    assert n.bit_length() == b and isprime(n) and isprime(q) and pow(g, q, n) == n - 1
    h = "%X" % n
    parts = [h[i:i + 64] for i in range(0, len(h), 64)]
    out.append(f"    [name |-> \"G_{b}\", bits |-> {b}, g |-> {g}, n |-> <<\n        "
               + ",\n        ".join('"%s"' % p for p in parts) + ">>]")
open(os.path.join(V, "spec", "SrpGroups.tla"), "w").write("""----------------------------- MODULE SrpGroups ------------------------------
(***************************************************************************)
(* The groups of RFC 5054, appendix A: name, size of the modulus, the      *)
(* generator, and the modulus as pieces of its hexadecimal form.           *)
(* (Written by tools/mkgroups.py, which computes the moduli of RFC 3526    *)
(* from their formula and checks that all are safe primes.)                *)
(***************************************************************************)
EXTENDS Json, TLC, Integers, Sequences

Groups == <<
""" + ",\n".join(out) + """
  >>

ASSUME \\A i \\in DOMAIN Groups : Groups[i].bits % 8 = 0 /\\ Groups[i].g < 256

VARIABLE i
Init == i \\in DOMAIN Groups
Next == UNCHANGED i
Emit == PrintT(ToJson(Groups[i]))
=============================================================================
""")
