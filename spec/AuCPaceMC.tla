----------------------------- MODULE AuCPaceMC ------------------------------
(***************************************************************************)
(* Runs of AuCPace between two clients and two sessions of one server, in  *)
(* all variants, with an adversary on the wire, disagreeing inputs and     *)
(* histories of registrations.                                             *)
(*                                                                         *)
(* Dev bounds how often a run departs from two honest runs c1 - s1 and     *)
(* c2 - s2 of a registered user.                                           *)
(***************************************************************************)
EXTENDS AuCPace, Strings, Json

CONSTANTS Pairs,    \* 1 or 2: how many of the pairs take part
          MaxDev, Record, Ordered, Rich, Cfgs,
          FreeHist  \* the histories in which the user is not (fully) registered cost nothing

VARIABLES cfg, db, keys, regs, cl, sv, dev, pc, hist

vars == <<cfg, db, keys, regs, cl, sv, dev, pc, hist>>

Some(r) == [k |-> "some", r |-> r]
No      == [k |-> "none"]

N  == 1 .. Pairs
CN(n) == <<"c1", "c2">>[n]
SN(n) == <<"s1", "s2">>[n]

U0 == <<"u1", "u2">>
P0 == <<"p1", "p2">>
U1 == <<"v">>
P1 == <<"p1", "p2~l">>
P2 == <<"r">>
CI0 == <<"i1", "i2">>
SS0 == <<"ss#>17">>
Par0 == Leaf("params", <<"A">>)
Par1 == Leaf("params", <<"B">>)
Secret == Rnd("S", "secret")

Ed(s) == IF Rich THEN Edits(s) ELSE {s \o <<"nul">>, <<"o">>}

(***************************************************************************)
(* The database of the server: what registrations and long-term keys       *)
(* leave.  reg events: [n, user, pw, par]; key events: [n, user].          *)
(***************************************************************************)
Reg(n, u, p)  == [op |-> "reg", s |-> n, user |-> u, pw |-> p, par |-> Par0]
RegP(n, u, p) == [op |-> "reg", s |-> n, user |-> u, pw |-> p, par |-> Par1]
Key(n, u)     == [op |-> "key", s |-> n, user |-> u]
(* a database holding a zero exponent or a zero long-term key *)
ZeroQ(n, u)   == [op |-> "zeroq", s |-> n, user |-> u]
ZeroKey(n, u) == [op |-> "zerokey", s |-> n, user |-> u]

Rec(ev) ==
    LET q    == S(Rnd(ev.s, "q"))
        salt == IF cfg.strong THEN StrongSalt(ev.user, ev.pw, q) ELSE Rnd(ev.s, "salt")
    IN  [w |-> Verifier(ev.user, ev.pw, salt, ev.par), salt |-> salt, q |-> q, par |-> ev.par,
         user |-> ev.user, pw |-> ev.pw]

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Apply(d, ks, ev) ==
    CASE ev.op = "reg"     -> <<Put(d, ev.user, Rec(ev)), ks>>
      [] ev.op = "key"     -> <<d, Put(ks, ev.user, S(Rnd(ev.s, "x")))>>
      [] ev.op = "zeroq"   -> <<[d EXCEPT ![ev.user].q = PZero], ks>>
      [] ev.op = "zerokey" -> <<d, Put(ks, ev.user, PZero)>>
RECURSIVE ApplyAll(_, _, _)
ApplyAll(d, ks, q) == IF q = <<>> THEN <<d, ks>>
                      ELSE LET a == Apply(d, ks, Head(q)) IN ApplyAll(a[1], a[2], Tail(q))

RegLog(ev) ==
    IF ev.op \in {"zeroq", "zerokey"} THEN [op |-> ev.op, s |-> ev.s, user |-> ev.user, out |-> <<>>, d |-> <<>>]
    ELSE IF ev.op = "key" THEN [op |-> "key", s |-> ev.s, user |-> ev.user, out |-> <<EMul(S(Rnd(ev.s, "x")), B)>>, d |-> <<>>]
    ELSE LET r == Rec(ev) IN
         [op |-> "reg", s |-> ev.s, user |-> ev.user, pw |-> ev.pw, par |-> ev.par.v[1],
          d |-> <<r.salt>>, out |-> <<r.salt, r.w, ev.par>>]

(* histories before the sessions, with what they cost *)
Base == IF cfg.partial THEN <<Reg("r1", U0, P0), Key("k1", U0)>> ELSE <<Reg("r1", U0, P0)>>
Unregistered ==
    {<<>>, <<Reg("r2", U1, P0)>>}
    \cup (IF cfg.partial THEN {<<Reg("r1", U0, P0)>>, <<Key("k1", U0)>>} ELSE {})
Histories ==
    IF FreeHist THEN {<<0, h>> : h \in Unregistered} ELSE
    {<<0, Base>>}
    \cup {<<1, h>> : h \in
       { <<Reg("r2", U0, P2)>> \o Base,                       \* registered anew
         Base \o <<Reg("r2", U0, P2)>>,                       \* password changed since
         Base \o <<Reg("r2", U0, P0)>>,                       \* same password, fresh salt
         Base \o <<RegP("r2", U0, P0)>>,                      \* hardened parameters
         Base \o <<Reg("r2", U1, P0)>>,                       \* another user, same password
         <<Reg("r2", U1, P2)>> \o Base,
         <<Reg("r2", U0, P1), Reg("r3", U0, P2)>> \o Base,
         <<>>,                                                \* nobody registered
         <<Reg("r2", U1, P0)>> }
       \cup (IF cfg.partial
             THEN { <<Reg("r1", U0, P0)>>,                    \* no long-term key for the user
                    <<Key("k1", U0)>>,                        \* a key but no verifier
                    <<Reg("r1", U0, P0), Key("k2", U0), Key("k1", U0)>>,
                    <<Reg("r1", U0, P0), Key("k1", U0), Reg("r2", U1, P0), Key("k2", U1)>>,
                    <<Reg("r1", U0, P0), Reg("r2", U1, P0), Key("k2", U1)>> }
             ELSE {})
       \cup (IF cfg.strong THEN {Base \o <<ZeroQ("z1", U0)>>} ELSE {})
       \cup (IF cfg.partial THEN {Base \o <<ZeroKey("z1", U0)>>} ELSE {}) }

(* what client c1 may believe *)
CredVars ==
    {[user |-> u, pw |-> P0] : u \in Ed(U0)} \cup {[user |-> U0, pw |-> p] : p \in Ed(P0)}
    \cup { [user |-> U0, pw |-> P1], [user |-> U0, pw |-> P2], [user |-> U1, pw |-> P0],
           [user |-> P0, pw |-> U0], [user |-> <<"u1">>, pw |-> <<"u2", "p1", "p2">>],
           [user |-> <<"u1", "u2", "p1">>, pw |-> <<"p2">>],
           [user |-> U0 \o <<"colon">>, pw |-> P0], [user |-> U0, pw |-> <<"colon">> \o P0],
           [user |-> <<>>, pw |-> U0 \o <<"colon">> \o P0] }
UserSubs == {U0, U1, <<"o">>, U0 \o <<"nul">>, <<"u1">>, <<"u1~case", "u2">>}

(***************************************************************************)
(* What the adversary does to group elements, nonces and authenticators.   *)
(* The same change in both directions counts once.                         *)
(***************************************************************************)
PtOps  == {"zero", "neg", "dbl", "scaled", "base", "rand", "plusB"}
Pt(e, o, n) ==
    CASE o = "none"   -> e
      [] o = "zero"   -> EZero
      [] o = "neg"    -> EMul(PNeg(POne), e)
      [] o = "dbl"    -> EAdd(e, e)
      [] o = "scaled" -> EMul(PAtom(Leaf("adv", <<"k">>)), e)
      [] o = "base"   -> B
      [] o = "rand"   -> EBase(Leaf("adv", <<n>>))
      [] o = "plusB"  -> EAdd(e, B)
ValOps == IF Rich THEN {"f", "l", "m", "zeros", "rev"} ELSE {"m"}
Changed(t, o) == IF o = "none" THEN t ELSE Node("changed", <<t, Leaf(o, <<>>)>>)
Cost(b) == IF b THEN 1 ELSE 0

-----------------------------------------------------------------------------
CEmpty == [st |-> 0, err |-> "none", user |-> <<>>, pw |-> <<>>, ci |-> <<>>, pre |-> <<>>, ssid |-> None, prs |-> None,
           blinded |-> EZero, pub |-> EZero, sk1 |-> None, tb |-> None, sk |-> None, gotX |-> EZero, gotSalt |-> None,
           gotPar |-> None, gotPub |-> EZero, peerTa |-> None,
           nop |-> <<>>, pkop |-> <<>>]
SEmpty == [st |-> 0, err |-> "none", ci |-> <<>>, pre |-> <<>>, ssid |-> None, prs |-> None, user |-> <<>>, rec |-> No,
           X |-> EZero, salt |-> None, uq |-> EZero, par |-> None, pub |-> EZero, sk1 |-> None, ta |-> None, sk |-> None,
           gotPub |-> EZero, gotTb |-> None]

(* st: 0 new, 1 begun, 2 named, 3 has PRS, 4 sent its key, 5 has sk1 (explicit), 6 has the key; 9 failed *)
CT(n) == Rnd(CN(n), "t")
ST(n) == Rnd(SN(n), "s")
R(n)  == S(Rnd(CN(n), "r"))
YC(n) == S(Rnd(CN(n), "y"))
YS(n) == S(Rnd(SN(n), "y"))
XS(n) == S(Rnd(SN(n), "x"))

Log(ev) == hist' = IF Record THEN Append(hist, ev) ELSE hist
Paid(c) == dev + c <= MaxDev /\ dev' = dev + c

Init ==
    /\ cfg \in Cfgs
    /\ \E h \in Histories :
        /\ h[1] <= MaxDev /\ dev = h[1]
        /\ LET a == ApplyAll(EmptyFn, EmptyFn, h[2]) IN db = a[1] /\ keys = a[2]
        /\ regs = h[2]
        /\ hist = IF Record THEN <<[op |-> "cfg", cfg |-> cfg, d |-> <<>>, out |-> <<>>]>> \o [i \in DOMAIN h[2] |-> RegLog(h[2][i])]
                  ELSE <<>>
    /\ cl = [n \in N |-> CEmpty] /\ sv = [n \in N |-> SEmpty]
    /\ pc = 1

(* the order of the generated behaviours *)
Phases == <<"CStart", "SStart", "CAug", "SInfo", "CCpace", "CPub", "SPub", "CRecv", "SRecv", "SAuth", "CAuth">>
Sched == [i \in 1 .. Len(Phases) * Pairs |-> <<Phases[((i - 1) \div Pairs) + 1], ((i - 1) % Pairs) + 1>>]
Turn(a, n) == Ordered => pc <= Len(Sched) /\ Sched[pc] = <<a, n>>
Step == pc' = IF Ordered THEN pc + 1 ELSE pc
Same == UNCHANGED <<cfg, db, keys, regs>>

(* another registration in the middle *)
Rereg ==
    /\ Ordered => pc <= Len(Sched) /\ Sched[pc] \in {<<"SInfo", 1>>, <<"SInfo", Pairs>>, <<"SPub", 1>>}
    /\ ~ \E i \in DOMAIN regs : regs[i].s = "r9"
    /\ Paid(1)
    /\ \E ev \in {Reg("r9", U0, P2), Reg("r9", U0, P0), Reg("r9", U1, P0)} \cup (IF cfg.partial THEN {Key("r9", U0)} ELSE {}) :
        /\ LET a == Apply(db, keys, ev) IN db' = a[1] /\ keys' = a[2]
        /\ regs' = Append(regs, ev)
        /\ Log(RegLog(ev))
    /\ UNCHANGED <<cfg, cl, sv, pc>>

CStart(n) ==
    /\ Turn("CStart", n) /\ cl[n].st = 0
    /\ IF cfg.pre
       THEN \E p \in {SS0} \cup (IF n = 1 THEN Ed(SS0) \ {<<>>, <<"o">>} ELSE {}) :
              /\ Paid(Cost(p # SS0))
              /\ cl' = [cl EXCEPT ![n].st = 1, ![n].pre = p, ![n].ssid = SsidPre(p)]
              /\ Log([op |-> "cstart", s |-> CN(n), pre |-> p, d |-> <<SsidPre(p)>>, out |-> <<>>])
       ELSE /\ Paid(0)
            /\ cl' = [cl EXCEPT ![n].st = 1]
            /\ Log([op |-> "cstart", s |-> CN(n), pre |-> <<>>, d |-> <<>>, out |-> <<CT(n)>>])
    /\ Step /\ Same /\ UNCHANGED sv

SStart(n) ==
    /\ Turn("SStart", n) /\ sv[n].st = 0
    /\ IF cfg.pre
       THEN \E p \in {SS0} \cup (IF n = 1 THEN {<<"ss#>17~f">>, <<"ss#>17", "nul">>} ELSE {}) :
              /\ Paid(Cost(p # SS0))
              /\ sv' = [sv EXCEPT ![n].st = 1, ![n].pre = p, ![n].ssid = SsidPre(p)]
              /\ Log([op |-> "sstart", s |-> SN(n), pre |-> p, d |-> <<SsidPre(p)>>, out |-> <<>>])
       ELSE /\ Paid(0)
            /\ sv' = [sv EXCEPT ![n].st = 1]
            /\ Log([op |-> "sstart", s |-> SN(n), pre |-> <<>>, d |-> <<>>, out |-> <<ST(n)>>])
    /\ Step /\ Same /\ UNCHANGED cl

(* nonces that can reach a party: of any session of the peer's role, its own, changed *)
NonceIn(n, own, peer(_), begun(_)) ==
    {<<"peer", m, "none", Cost(m # n)>> : m \in {k \in N : begun(k)}}
    \cup {<<"peer", n, o, 1>> : o \in IF begun(n) THEN ValOps ELSE {}}
    \cup {<<"own", n, "none", 1>>}

CAug(n) ==
    /\ Turn("CAug", n) /\ cl[n].st = 1
    /\ \E c \in {[user |-> U0, pw |-> P0]} \cup (IF n = 1 THEN CredVars ELSE {}),
         x \in (IF cfg.pre THEN {<<"pre", n, "none", 0>>}
                ELSE LET Bg(k) == sv[k].st # 0 IN NonceIn(n, CT(n), ST, Bg)) :
        LET nonce == IF x[1] = "own" THEN CT(n) ELSE Changed(ST(x[2]), x[3])
            ssid  == IF cfg.pre THEN cl[n].ssid ELSE Ssid(nonce, CT(n))
            bl    == IF cfg.strong THEN Blind(c.user, c.pw, R(n)) ELSE EZero IN
        /\ Paid(Cost(c # [user |-> U0, pw |-> P0]) + x[4])
        /\ cl' = [cl EXCEPT ![n].st = 2, ![n].user = c.user, ![n].pw = c.pw, ![n].ssid = ssid, ![n].blinded = bl,
                          ![n].nop = <<x[1], x[2], x[3]>>]
        /\ Log([op |-> "caug", s |-> CN(n), user |-> c.user, pw |-> c.pw, from |-> x[1],
                src |-> IF x[1] = "own" THEN CN(n) ELSE SN(x[2]), how |-> x[3],
                d |-> <<ssid>>, out |-> IF cfg.strong THEN <<bl>> ELSE <<>>])
    /\ Step /\ Same /\ UNCHANGED sv

SInfo(n) ==
    /\ Turn("SInfo", n) /\ sv[n].st = 1
    /\ \E m \in {k \in N : cl[k].st >= 2},
         x \in (IF cfg.pre THEN {<<"pre", n, "none", 0>>}
                ELSE LET Bg(k) == cl[k].st # 0 IN NonceIn(n, ST(n), CT, Bg)),
         u \in {<<"same">>} \cup (IF n = 1 THEN {<<"as", v>> : v \in UserSubs} ELSE {}),
         o \in {"none"} \cup (IF cfg.strong THEN PtOps ELSE {}) :
        LET nonce == IF x[1] = "own" THEN ST(n) ELSE Changed(CT(x[2]), x[3])
            ssid  == IF cfg.pre THEN sv[n].ssid ELSE Ssid(ST(n), nonce)
            user  == IF u[1] = "same" THEN cl[m].user ELSE u[2]
            bl    == IF cfg.strong THEN Pt(cl[m].blinded, o, SN(n)) ELSE EZero
            known == user \in DOMAIN db /\ (cfg.partial => user \in DOMAIN keys)
            X     == IF ~cfg.partial THEN EMul(XS(n), B)
                     ELSE IF user \in DOMAIN keys THEN EMul(keys[user], B) ELSE DecoyPk(Secret, user)
            x1    == IF cfg.partial THEN keys[user] ELSE XS(n)
            prs   == IF known THEN PrsServer(x1, db[user].w) ELSE Rnd(SN(n), "prs")
            uq    == IF ~cfg.strong THEN EZero
                     ELSE EMul(IF known THEN db[user].q ELSE DecoyExp(Secret, user), bl)
            salt  == IF known THEN db[user].salt ELSE DecoySalt(Secret, user)
            par   == IF known THEN db[user].par ELSE DefaultParams
            bad   == cfg.strong /\ Neutral(uq)
            ev    == [op |-> "sinfo", s |-> SN(n), from |-> x[1], src |-> IF x[1] = "own" THEN SN(n) ELSE CN(x[2]), how |-> x[3],
                      named |-> CN(m), user |-> user, bop |-> o, known |-> known]
        IN
        /\ Paid(Cost(m # n) + (IF <<x[1], x[2], x[3]>> = cl[n].nop THEN 0 ELSE x[4]) + Cost(u[1] # "same") + Cost(o # "none"))
        /\ IF bad
           THEN /\ sv' = [sv EXCEPT ![n].st = 9, ![n].err = "IllegalPoint", ![n].ssid = ssid, ![n].user = user]
                /\ Log(ev @@ [status |-> "IllegalPoint", d |-> <<ssid>>, out |-> <<>>])
           ELSE /\ sv' = [sv EXCEPT ![n].st = 3, ![n].ssid = ssid, ![n].prs = prs, ![n].user = user,
                                    ![n].rec = IF known THEN Some(db[user]) ELSE No,
                                    ![n].X = X, ![n].salt = salt, ![n].uq = uq, ![n].par = par]
                /\ Log(ev @@ [status |-> "Ok", d |-> <<ssid, salt, prs>>,
                              out |-> <<X, IF cfg.strong THEN uq ELSE salt, par, prs>>])
    /\ Step /\ Same /\ UNCHANGED cl

CCpace(n) ==
    /\ Turn("CCpace", n) /\ cl[n].st = 2
    /\ \E m \in {k \in N : sv[k].st >= 3 /\ sv[k].st < 9}, xo \in {"none"} \cup PtOps,
         so \in {"none"} \cup (IF cfg.strong THEN PtOps \cup (IF n = 1 THEN {"r9"} ELSE {}) ELSE {"m", "r9"}),
         po \in {"none", "other"} :
        LET X    == Pt(sv[m].X, xo, CN(n))
            par  == IF po = "none" THEN sv[m].par ELSE Par1
            bs   == IF ~cfg.strong THEN EZero
                    ELSE IF so = "r9" THEN cl[n].blinded ELSE Pt(sv[m].uq, so, CN(n) \o "b")
            sp   == EMul(SInv(R(n)), bs)
            salt == IF cfg.strong THEN Enc(sp)
                    ELSE IF so = "r9" THEN Rnd("adv", "salt") ELSE Changed(sv[m].salt, so)
            bad  == Neutral(X) \/ (cfg.strong /\ Neutral(sp))
            prs  == PrsClient(cl[n].user, cl[n].pw, salt, par, X)
            ev   == [op |-> "ccpace", s |-> CN(n), src |-> SN(m), how |-> xo, sop |-> so, pop |-> po]
        IN
        /\ Paid(Cost(m # n) + Cost(xo # "none") + Cost(so # "none") + Cost(po # "none"))
        /\ IF bad
           THEN /\ cl' = [cl EXCEPT ![n].st = 9, ![n].err = "IllegalPoint"]
                /\ Log(ev @@ [status |-> "IllegalPoint", d |-> <<>>, out |-> <<>>])
           ELSE /\ cl' = [cl EXCEPT ![n].st = 3, ![n].prs = prs, ![n].gotX = X, ![n].gotSalt = salt, ![n].gotPar = par]
                /\ Log(ev @@ [status |-> "Ok", d |-> <<salt, prs>>, out |-> <<salt, prs>>])
    /\ Step /\ Same /\ UNCHANGED sv

CPub(n) ==
    /\ Turn("CPub", n) /\ cl[n].st = 3
    /\ \E c \in {CI0} \cup (IF n = 1 THEN Ed(CI0) ELSE {}) :
        LET P == Pub(cl[n].ssid, cl[n].prs, c, YC(n)) IN
        /\ Paid(Cost(c # CI0))
        /\ cl' = [cl EXCEPT ![n].st = 4, ![n].ci = c, ![n].pub = P]
        /\ Log([op |-> "cpub", s |-> CN(n), ci |-> c, d |-> <<Node("map", <<H("H1", <<cl[n].ssid, cl[n].prs, Str(c)>>)>>)>>, out |-> <<P>>])
    /\ Step /\ Same /\ UNCHANGED sv

SPub(n) ==
    /\ Turn("SPub", n) /\ sv[n].st = 3
    /\ \E c \in {CI0} \cup (IF n = 1 THEN {<<>>, <<"i1", "i2~l">>} ELSE {}) :
        LET P == Pub(sv[n].ssid, sv[n].prs, c, YS(n)) IN
        /\ Paid(Cost(c # CI0))
        /\ sv' = [sv EXCEPT ![n].st = 4, ![n].ci = c, ![n].pub = P]
        /\ Log([op |-> "spub", s |-> SN(n), ci |-> c, d |-> <<Node("map", <<H("H1", <<sv[n].ssid, sv[n].prs, Str(c)>>)>>)>>, out |-> <<P>>])
    /\ Step /\ Same /\ UNCHANGED cl

(* public keys that can reach a party: of a session of the peer's role, its own (reflection), changed *)
CRecv(n) ==
    /\ Turn("CRecv", n) /\ cl[n].st = 4
    /\ \E x \in {<<"peer", m>> : m \in {k \in N : sv[k].st >= 4 /\ sv[k].st < 9}} \cup {<<"own", n>>}, o \in {"none"} \cup PtOps :
        LET P   == Pt(IF x[1] = "own" THEN cl[n].pub ELSE sv[x[2]].pub, o, CN(n))
            k1  == Sk1(cl[n].ssid, YC(n), P)
            tb  == Tb(cl[n].ssid, k1)
            sk  == Sk(cl[n].ssid, k1)
            ev  == [op |-> "crecv", s |-> CN(n), src |-> IF x[1] = "own" THEN CN(n) ELSE SN(x[2]), how |-> o]
        IN
        /\ Paid(Cost(x # <<"peer", n>>) + Cost(o # "none"))
        /\ IF Neutral(P)
           THEN /\ cl' = [cl EXCEPT ![n].st = 9, ![n].err = "IllegalPoint"]
                /\ Log(ev @@ [status |-> "IllegalPoint", d |-> <<>>, out |-> <<>>])
           ELSE IF cfg.cexp
           THEN /\ cl' = [cl EXCEPT ![n].st = 5, ![n].sk1 = k1, ![n].tb = tb, ![n].gotPub = P, ![n].pkop = <<x[1], x[2], o>>]
                /\ Log(ev @@ [status |-> "Ok", d |-> <<k1>>, out |-> <<tb>>])
           ELSE /\ cl' = [cl EXCEPT ![n].st = 6, ![n].sk1 = k1, ![n].sk = sk, ![n].gotPub = P, ![n].pkop = <<x[1], x[2], o>>]
                /\ Log(ev @@ [status |-> "Ok", d |-> <<k1>>, out |-> <<sk>>])
    /\ Step /\ Same /\ UNCHANGED sv

SRecv(n) ==
    /\ Turn("SRecv", n) /\ sv[n].st = 4
    /\ \E x \in {<<"peer", m>> : m \in {k \in N : cl[k].st >= 4 /\ cl[k].pub # EZero}} \cup {<<"own", n>>}, o \in {"none"} \cup PtOps :
        LET P   == Pt(IF x[1] = "own" THEN sv[n].pub ELSE cl[x[2]].pub, o, SN(n))
            k1  == Sk1(sv[n].ssid, YS(n), P)
            sk  == Sk(sv[n].ssid, k1)
            ev  == [op |-> "srecv", s |-> SN(n), src |-> IF x[1] = "own" THEN SN(n) ELSE CN(x[2]), how |-> o]
        IN
        /\ Paid(IF <<x[1], x[2], o>> = cl[n].pkop THEN 0 ELSE Cost(x # <<"peer", n>>) + Cost(o # "none"))
        /\ IF Neutral(P)
           THEN /\ sv' = [sv EXCEPT ![n].st = 9, ![n].err = "IllegalPoint"]
                /\ Log(ev @@ [status |-> "IllegalPoint", d |-> <<>>, out |-> <<>>])
           ELSE IF cfg.sexp
           THEN /\ sv' = [sv EXCEPT ![n].st = 5, ![n].sk1 = k1, ![n].gotPub = P]
                /\ Log(ev @@ [status |-> "Ok", d |-> <<k1>>, out |-> <<>>])
           ELSE /\ sv' = [sv EXCEPT ![n].st = 6, ![n].sk1 = k1, ![n].sk = sk, ![n].gotPub = P]
                /\ Log(ev @@ [status |-> "Ok", d |-> <<k1>>, out |-> <<sk>>])
    /\ Step /\ Same /\ UNCHANGED cl

(* authenticators on the wire: every client's tb and every ta a server has revealed *)
Auths == {<<CN(m), cl[m].tb>> : m \in {k \in N : cl[k].tb # None}} \cup {<<SN(m), sv[m].ta>> : m \in {k \in N : sv[k].ta # None}}

SAuth(n) ==
    /\ Turn("SAuth", n) /\ sv[n].st = 5
    /\ \E a \in Auths, o \in {"none"} \cup ValOps :
        LET t  == Changed(a[2], o)
            ok == t = Tb(sv[n].ssid, sv[n].sk1)
            ta == Ta(sv[n].ssid, sv[n].sk1)
            sk == Sk(sv[n].ssid, sv[n].sk1)
            ev == [op |-> "sauth", s |-> SN(n), src |-> a[1], how |-> o]
        IN
        /\ Paid(Cost(a[1] # CN(n)) + Cost(o # "none"))
        /\ IF ok
           THEN /\ sv' = [sv EXCEPT ![n].st = 6, ![n].ta = ta, ![n].sk = sk, ![n].gotTb = t]
                /\ Log(ev @@ [status |-> "Ok", d |-> <<>>, out |-> <<sk, ta>>])
           ELSE /\ sv' = [sv EXCEPT ![n].st = 9, ![n].err = "MutualAuthFail"]
                /\ Log(ev @@ [status |-> "MutualAuthFail", d |-> <<>>, out |-> <<>>])
    /\ Step /\ Same /\ UNCHANGED cl

(* a server that authenticates implicitly sends nothing: its ta is unknown to everyone *)
CAuth(n) ==
    /\ Turn("CAuth", n) /\ cl[n].st = 5
    /\ \E a \in Auths, o \in {"none"} \cup ValOps :
        LET t  == Changed(a[2], o)
            ok == t = Ta(cl[n].ssid, cl[n].sk1)
            sk == Sk(cl[n].ssid, cl[n].sk1)
            ev == [op |-> "cauth", s |-> CN(n), src |-> a[1], how |-> o]
        IN
        /\ Paid(Cost(a[1] # SN(n)) + Cost(o # "none"))
        /\ IF ok
           THEN /\ cl' = [cl EXCEPT ![n].st = 6, ![n].sk = sk, ![n].peerTa = t]
                /\ Log(ev @@ [status |-> "Ok", d |-> <<>>, out |-> <<sk>>])
           ELSE /\ cl' = [cl EXCEPT ![n].st = 9, ![n].err = "MutualAuthFail"]
                /\ Log(ev @@ [status |-> "MutualAuthFail", d |-> <<>>, out |-> <<>>])
    /\ Step /\ Same /\ UNCHANGED sv

Act(n) == \/ CStart(n) \/ SStart(n) \/ CAug(n) \/ SInfo(n) \/ CCpace(n) \/ CPub(n) \/ SPub(n)
          \/ CRecv(n) \/ SRecv(n) \/ SAuth(n) \/ CAuth(n)

(* in the fixed order, a step nobody can take (any more) is passed over *)
Ready(a, n) ==
    CASE a = "CStart" -> cl[n].st = 0
      [] a = "SStart" -> sv[n].st = 0
      [] a = "CAug"   -> cl[n].st = 1
      [] a = "SInfo"  -> sv[n].st = 1 /\ (dev < MaxDev \/ cl[n].st >= 2)
      [] a = "CCpace" -> cl[n].st = 2 /\ \E k \in N : (k = n \/ dev < MaxDev) /\ sv[k].st >= 3 /\ sv[k].st < 9
      [] a = "CPub"   -> cl[n].st = 3
      [] a = "SPub"   -> sv[n].st = 3
      [] a = "CRecv"  -> cl[n].st = 4 /\ (dev < MaxDev \/ (sv[n].st >= 4 /\ sv[n].st < 9))
      [] a = "SRecv"  -> sv[n].st = 4 /\ (dev < MaxDev \/ (cl[n].st >= 4 /\ cl[n].pub # EZero))
      [] a = "SAuth"  -> sv[n].st = 5 /\ \E x \in Auths : x[1] = CN(n) \/ dev < MaxDev
      [] a = "CAuth"  -> cl[n].st = 5 /\ \E x \in Auths : x[1] = SN(n) \/ dev < MaxDev
Skip ==
    /\ Ordered /\ pc <= Len(Sched) /\ ~Ready(Sched[pc][1], Sched[pc][2])
    /\ pc' = pc + 1 /\ UNCHANGED <<cfg, db, keys, regs, cl, sv, dev, hist>>

Next == (\E n \in N : Act(n)) \/ Rereg \/ Skip

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Printing: terms that recur are printed once, in a table; later they are *)
(* references into it.                                                     *)
(***************************************************************************)
Idx(t, tab) == IF \E i \in DOMAIN tab : tab[i] = t THEN CHOOSE i \in DOMAIN tab : tab[i] = t ELSE 0
RECURSIVE OutR(_, _)
OutR(t, tab) ==
    LET i == Idx(t, tab) IN
    IF i # 0 THEN [r |-> i]
    ELSE LET ks == SetSeq(DOMAIN t.e) IN
         [k |-> t.k] @@ (IF t.v = <<>> THEN <<>> ELSE [v |-> t.v])
         @@ (IF t.a = <<>> THEN <<>> ELSE [a |-> [j \in DOMAIN t.a |-> OutR(t.a[j], tab)]])
         @@ (IF ks = <<>> THEN <<>> ELSE [e |-> [j \in DOMAIN ks |-> [t |-> OutR(ks[j], tab), n |-> t.e[ks[j]]]]])
RECURSIVE TabOf(_, _)
TabOf(q, tab) == IF q = <<>> THEN tab
                 ELSE TabOf(Tail(q), IF Idx(Head(q), tab) = 0 THEN Append(tab, Head(q)) ELSE tab)
RECURSIVE AllDefs(_)
AllDefs(h) == IF h = <<>> THEN <<>> ELSE Head(h).d \o AllDefs(Tail(h))

Printed ==
    LET tab == TabOf(AllDefs(hist), <<>>) IN
    [tab |-> [i \in DOMAIN tab |-> OutR(tab[i], SubSeq(tab, 1, i - 1))],
     ev  |-> [i \in DOMAIN hist |-> [hist[i] EXCEPT !.d = <<>>, !.out = [j \in DOMAIN @ |-> OutR(@[j], tab)]]]]

Emit == (Record /\ pc = Len(Sched) + 1) => PrintT(ToJson(Printed))

-----------------------------------------------------------------------------
(* The properties. *)

HasKey(x) == x.sk # None

(* what the server told the client and vice versa arrived, and the client's credentials are those registered *)
Matching(i, j) ==
    /\ sv[j].rec # No
    /\ Login(cl[i].user, cl[i].pw) = Login(sv[j].rec.r.user, sv[j].rec.r.pw)
    /\ cl[i].gotX = sv[j].X /\ cl[i].gotSalt = sv[j].rec.r.salt /\ cl[i].gotPar = sv[j].rec.r.par
SameView(i, j) == cl[i].ssid = sv[j].ssid /\ cl[i].ci = sv[j].ci /\ Matching(i, j)
Undisturbed(i, j) == cl[i].gotPub = sv[j].pub /\ sv[j].gotPub = cl[i].pub

Agreement ==
    \A i, j \in N :
        (cl[i].sk1 # None /\ sv[j].sk1 # None /\ SameView(i, j) /\ Undisturbed(i, j)) =>
            /\ cl[i].sk1 = sv[j].sk1
            /\ (HasKey(cl[i]) /\ HasKey(sv[j])) => cl[i].sk = sv[j].sk

Binding ==
    \A i, j \in N :
        (cl[i].sk1 # None /\ sv[j].sk1 # None /\ ~SameView(i, j)) =>
            /\ cl[i].sk1 # sv[j].sk1 /\ Sk(cl[i].ssid, cl[i].sk1) # Sk(sv[j].ssid, sv[j].sk1)

(* with explicit authentication the key comes with the right authenticator only *)
Authentic ==
    /\ \A j \in N : (cfg.sexp /\ HasKey(sv[j])) =>
          \E i \in N : cl[i].tb = sv[j].gotTb /\ SameView(i, j) /\ cl[i].sk1 = sv[j].sk1
    /\ \A i \in N : (cfg.cexp /\ HasKey(cl[i])) =>
          \E j \in N : sv[j].ta = cl[i].peerTa /\ SameView(i, j) /\ cl[i].sk1 = sv[j].sk1

(* neither two clients nor two servers ever share a key *)
Roles ==
    \A i, j \in N : i # j =>
        /\ (cl[i].sk1 # None => cl[i].sk1 # cl[j].sk1)
        /\ (sv[i].sk1 # None => sv[i].sk1 # sv[j].sk1)

(* unknown users: no client shares a key with the session *)
Decoy == \A i, j \in N : (sv[j].rec = No /\ sv[j].sk1 # None) => cl[i].sk1 # sv[j].sk1

(* a side that failed has no key *)
NoKey == \A n \in N : (cl[n].st = 9 => cl[n].sk = None) /\ (sv[n].st = 9 => sv[n].sk = None /\ sv[n].ta = None)

(* nothing neutral is ever used *)
NonNeutral == \A n \in N :
    /\ (cl[n].st \in 3 .. 6 => ~Neutral(cl[n].gotX))
    /\ (cl[n].st \in 5 .. 6 => ~Neutral(cl[n].gotPub)) /\ (sv[n].st \in 5 .. 6 => ~Neutral(sv[n].gotPub))
    /\ ((cfg.strong /\ sv[n].st \in 3 .. 6) => ~Neutral(sv[n].uq))
=============================================================================
