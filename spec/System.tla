------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* All protocols of the repository in one process: sessions of SPAKE2, SRP *)
(* and AuCPace are opened, take steps in any order, receive messages of    *)
(* their partner, of other sessions, or of an adversary, fail, and are     *)
(* abandoned; users register and change their passwords in between.        *)
(*                                                                         *)
(* A step of a session is a function of the session and of its input:      *)
(* Do(s, in).  The actions choose inputs from what is on the wire and in   *)
(* the databases.  Alone(s) runs a session by itself on the inputs it had; *)
(* NonInterference says that this gives what it gave in the system.        *)
(***************************************************************************)
EXTENDS Terms, Json

CONSTANTS PairKinds,   \* what pairs of sessions may be opened
          MaxPairs,    \* how many
          MaxRegs,     \* how many registrations and long-term keys
          Hostile,     \* may messages be swapped and changed, sessions abandoned, credentials be wrong?
          Depth,       \* 0, or random walks of that many steps are recorded
          Cfgs         \* the variants of AuCPace

SP == INSTANCE Spake2Sym
SR == INSTANCE SrpSym
AU == INSTANCE AuCPace

VARIABLES ses,    \* sequence of sessions
          vdb,    \* SRP: user -> [salt, v]
          db,     \* AuCPace: <<user, strong>> -> verifier record
          keys,   \* AuCPace: user -> long-term private key
          regs,   \* number of registrations
          fail,   \* how hostile this run is: 0 (not), 1, 2
          hist

vars == <<ses, vdb, db, keys, regs, fail, hist>>

Users == {<<"u1">>, <<"u2">>}
Pws   == {<<"p1">>, <<"p2">>}
Some(r) == [k |-> "some", r |-> r]
No      == [k |-> "none"]

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

(* the names of random values *)
Name(n) == ToString(n)
R(s, what) == PAtom(Rnd(Name(s.n), what))
N(s, what) == Rnd(Name(s.n), what)

-----------------------------------------------------------------------------
(* The steps of the sessions.  x is the private state, log the history.    *)

Fresh(kind, n, cfg) == [kind |-> kind, n |-> n, cfg |-> cfg, st |-> "new", x |-> [k |-> "nothing"], log |-> <<>>]
Res(st, x, status, out) == [st |-> st, x |-> x, status |-> status, out |-> out]

DoSpake(s, in) ==
    IF s.st = "new"
    THEN LET z == SP!Sp!Session(s.cfg.role, in.pw, in.ids, R(s, "x"))
         IN  Res("open", z, "Ok", <<SP!Sp!MsgTerm(SP!Sp!Message(z))>>)
    ELSE LET f == SP!Sp!Finish(s.x, in.msg) IN Res("done", s.x, f.status, <<f.key>>)

DoSrpC(s, in) ==
    CASE s.st = "new"  -> Res("open", [user |-> in.user, pw |-> in.pw], "Ok", <<SR!Sr!APub(R(s, "a"))>>)
      [] s.st = "open" -> LET r == SR!Sr!ClientReply(R(s, "a"), s.x.user, s.x.pw, in.salt, in.pub)
                          IN  Res(IF r.status = "Ok" THEN "reply" ELSE "done", r, r.status, <<r.m1, r.m2, r.key>>)
      [] OTHER         -> Res("done", s.x, SR!Sr!Verify(s.x.m2, in.proof), <<>>)
DoSrpS(s, in) ==
    CASE s.st = "new"  -> Res("open", [v |-> in.v], "Ok", <<SR!Sr!BPub(R(s, "b"), in.v)>>)
      [] s.st = "open" -> LET r == SR!Sr!ServerReply(s.x.v, R(s, "b"), in.pub)
                          IN  Res(IF r.status = "Ok" THEN "reply" ELSE "done", r, r.status, <<r.m1, r.m2, r.key>>)
      [] OTHER         -> Res("done", s.x, SR!Sr!Verify(s.x.m1, in.proof), <<>>)

(* AuCPace: the phases are start, aug/info, (client) cpace, pub, recv, auth *)
DoAuC(s, in) ==
    CASE s.st = "new"   -> Res("begun", [ssid |-> IF s.cfg.pre THEN AU!SsidPre(in.pre) ELSE None], "Ok",
                               IF s.cfg.pre THEN <<>> ELSE <<N(s, "t")>>)
      [] s.st = "begun" -> LET ssid == IF s.cfg.pre THEN s.x.ssid ELSE AU!Ssid(in.nonce, N(s, "t"))
                               bl   == IF s.cfg.strong THEN <<AU!Blind(in.user, in.pw, R(s, "r"))>> ELSE <<>>
                           IN  Res("named", [ssid |-> ssid, user |-> in.user, pw |-> in.pw], "Ok", <<Str(in.user)>> \o bl)
      [] s.st = "named" ->
            LET sp   == IF s.cfg.strong THEN EMul(AU!SInv(R(s, "r")), in.salt) ELSE EZero
                salt == IF s.cfg.strong THEN AU!Enc(sp) ELSE in.salt
            IN  IF AU!Neutral(in.X) \/ (s.cfg.strong /\ AU!Neutral(sp)) THEN Res("done", s.x, "IllegalPoint", <<>>)
                ELSE Res("prs", [ssid |-> s.x.ssid, prs |-> AU!PrsClient(s.x.user, s.x.pw, salt, in.par, in.X)], "Ok", <<>>)
      [] s.st = "prs"   -> Res("key", s.x, "Ok", <<AU!Pub(s.x.ssid, s.x.prs, in.ci, R(s, "y"))>>)
      [] s.st = "key"   ->
            LET k1 == AU!Sk1(s.x.ssid, R(s, "y"), in.pub)
            IN  IF AU!Neutral(in.pub) THEN Res("done", s.x, "IllegalPoint", <<>>)
                ELSE IF s.cfg.cexp
                     THEN Res("exp", [ssid |-> s.x.ssid, sk1 |-> k1], "Ok", <<AU!Tb(s.x.ssid, k1)>>)
                     ELSE Res("done", s.x, "Ok", <<AU!Sk(s.x.ssid, k1)>>)
      [] OTHER          ->
            IF in.auth = AU!Ta(s.x.ssid, s.x.sk1) THEN Res("done", s.x, "Ok", <<AU!Sk(s.x.ssid, s.x.sk1)>>)
            ELSE Res("done", s.x, "MutualAuthFail", <<>>)

DoAuS(s, in) ==
    CASE s.st = "new"   -> Res("begun", [ssid |-> IF s.cfg.pre THEN AU!SsidPre(in.pre) ELSE None], "Ok",
                               IF s.cfg.pre THEN <<>> ELSE <<N(s, "s")>>)
      [] s.st = "begun" ->
            LET ssid  == IF s.cfg.pre THEN s.x.ssid ELSE AU!Ssid(N(s, "s"), in.nonce)
                known == in.rec.k = "some" /\ (s.cfg.partial => in.key.k = "some")
                sec   == Rnd("server", "secret")
                x     == IF s.cfg.partial /\ known THEN in.key.r ELSE R(s, "x")
                q     == IF in.rec.k = "some" THEN in.rec.r.q ELSE AU!DecoyExp(sec, in.user)
                X     == IF known THEN EMul(x, AU!B)
                         ELSE IF s.cfg.partial THEN AU!DecoyPk(sec, in.user) ELSE EMul(x, AU!B)
                par   == IF known THEN in.rec.r.par ELSE AU!DefaultParams
                salt  == IF s.cfg.strong THEN EMul(q, in.blinded)
                         ELSE IF known THEN in.rec.r.salt ELSE AU!DecoySalt(sec, in.user)
                prs   == IF known THEN AU!PrsServer(x, in.rec.r.w) ELSE Node("decoyprs", <<N(s, "prs")>>)
            IN  IF s.cfg.strong /\ AU!Neutral(salt) THEN Res("done", s.x, "IllegalPoint", <<>>)
                ELSE Res("prs", [ssid |-> ssid, prs |-> prs], "Ok", <<X, salt, par>>)
      [] s.st = "prs"   -> Res("key", s.x, "Ok", <<AU!Pub(s.x.ssid, s.x.prs, in.ci, R(s, "y"))>>)
      [] s.st = "key"   ->
            LET k1 == AU!Sk1(s.x.ssid, R(s, "y"), in.pub)
            IN  IF AU!Neutral(in.pub) THEN Res("done", s.x, "IllegalPoint", <<>>)
                ELSE IF s.cfg.sexp
                     THEN Res("exp", [ssid |-> s.x.ssid, sk1 |-> k1], "Ok", <<>>)
                     ELSE Res("done", s.x, "Ok", <<AU!Sk(s.x.ssid, k1)>>)
      [] OTHER          ->
            IF in.auth = AU!Tb(s.x.ssid, s.x.sk1)
            THEN Res("done", s.x, "Ok", <<AU!Sk(s.x.ssid, s.x.sk1), AU!Ta(s.x.ssid, s.x.sk1)>>)
            ELSE Res("done", s.x, "MutualAuthFail", <<>>)

Result(s, in) ==
    CASE s.kind = "sp"  -> DoSpake(s, in)
      [] s.kind = "src" -> DoSrpC(s, in)
      [] s.kind = "srs" -> DoSrpS(s, in)
      [] s.kind = "auc" -> DoAuC(s, in)
      [] s.kind = "aus" -> DoAuS(s, in)

Do(s, in) ==
    LET r == Result(s, in)
    IN  [s EXCEPT !.st = r.st, !.x = r.x,
                  !.log = Append(@, [at |-> s.st, in |-> in, status |-> r.status, out |-> r.out])]

(* the session by itself, on the inputs it had *)
RECURSIVE Rerun(_, _)
Rerun(s, log) == IF log = <<>> THEN s ELSE Rerun(Do(s, Head(log).in), Tail(log))
Alone(s) == Rerun(Fresh(s.kind, s.n, s.cfg), s.log)

-----------------------------------------------------------------------------
(* What can be delivered.                                                  *)

(* the partner of a session: sessions are opened in pairs *)
Partner(n) == IF n % 2 = 1 THEN n + 1 ELSE n - 1

(* the step of a session's log in which it was in a state, if it took it successfully *)
Step(n, st) == {i \in DOMAIN ses[n].log : ses[n].log[i].at = st /\ ses[n].log[i].status = "Ok"}
Has(n, st)  == n \in DOMAIN ses /\ Step(n, st) # {}
OutOf(n, st) == ses[n].log[CHOOSE i \in Step(n, st) : TRUE].out
InOf(n, st)  == ses[n].log[CHOOSE i \in Step(n, st) : TRUE].in

(* choosing: everything in a search, one at random in a walk *)
Dice(n) == IF Depth = 0 THEN 0 ELSE RandomElement(0 .. n - 1)
Pick(S) == IF Depth = 0 \/ S = {} THEN S ELSE {RandomElement(S)}
(* in a walk, true with a chance of p in 16 (times how hostile the run is) *)
Chance(p) == IF Depth = 0 THEN TRUE ELSE Dice(16) < p * fail

(* a message: of the partner if it has sent one; a hostile run delivers others too *)
Sources(n, kind, st) ==
    LET p  == {m \in {Partner(n)} : Has(m, st) /\ ses[m].kind = kind}
        os == {m \in DOMAIN ses : ses[m].kind = kind /\ ses[n].cfg = ses[m].cfg /\ m # Partner(n) /\ Has(m, st)}
    IN  IF Hostile /\ fail > 0 /\ Chance(2) /\ os # {} THEN (IF Depth = 0 THEN p ELSE {}) \cup Pick(os) ELSE p
Hows(S) == IF Hostile /\ fail > 0 /\ Chance(2) THEN (IF Depth = 0 THEN {"none"} ELSE {}) \cup Pick(S) ELSE {"none"}

Log(ev) == hist' = IF Depth = 0 THEN hist ELSE Append(hist, ev)
Take(n, in, ev) ==
    /\ ses' = [ses EXCEPT ![n] = Do(@, in)]
    /\ Log(ev)
    /\ UNCHANGED <<vdb, db, keys, regs, fail>>

Idents == IF Depth = 0 THEN {<<"i1">>} ELSE {<<>>, <<"i1">>, <<"i2">>}

(* SPAKE2 *)
SpStart(n) ==
    /\ ses[n].kind = "sp" /\ ses[n].st = "new"
    /\ \E pw \in (IF Hostile /\ Chance(2) THEN Pick(Pws) ELSE {<<"p1">>}) :
        LET ids == ses[n].cfg.ids IN
        Take(n, [pw |-> pw, ids |-> ids], [op |-> "sp.start", s |-> n, role |-> ses[n].cfg.role, pw |-> pw, ids |-> ids])

SpMsg(m, how, n) ==
    LET z == ses[m].x IN
    CASE how = "none" -> [len |-> "ok", tag |-> z.role, body |-> z.body]
      [] how = "long" -> [len |-> "long", tag |-> z.role, body |-> z.body]
      [] how = "tag"  -> [len |-> "ok", tag |-> "X", body |-> z.body]
      [] how = "junk" -> [len |-> "ok", tag |-> z.role, body |-> Node("undecodable", <<>>)]
      [] how = "rand" -> [len |-> "ok", tag |-> z.role, body |-> SP!EncT(EBase(Leaf("adv", <<Name(n)>>)))]
SpFinish(n) ==
    /\ ses[n].kind = "sp" /\ ses[n].st = "open"
    /\ \E m \in {k \in DOMAIN ses : ses[k].kind = "sp" /\ ses[k].st # "new" /\ (k = Partner(n) \/ (Hostile /\ fail > 0))},
          how \in Hows({"long", "tag", "junk", "rand"}) :
        /\ m # Partner(n) => Chance(1)
        /\ Take(n, [msg |-> SpMsg(m, how, n)], [op |-> "sp.finish", s |-> n, src |-> m, how |-> how])

(* SRP *)
RegPws == IF Depth = 0 \/ Dice(4) = 0 THEN Pick(Pws) ELSE {<<"p1">>}
SrReg ==
    /\ regs < MaxRegs /\ "srp" \in PairKinds
    /\ \E u \in Pick(Users), p \in RegPws :
        LET salt == <<"s", ToString(regs)>> IN
        /\ vdb' = Put(vdb, u, [salt |-> salt, v |-> SR!Sr!Verifier(u, p, salt)])
        /\ Log([op |-> "sr.reg", s |-> 0, user |-> u, pw |-> p, salt |-> salt])
    /\ regs' = regs + 1
    /\ UNCHANGED <<ses, db, keys, fail>>
SrCStart(n) ==
    /\ ses[n].kind = "src" /\ ses[n].st = "new"
    /\ \E u \in Pick(Users), p \in (IF Hostile /\ Chance(3) THEN Pick(Pws) ELSE {<<"p1">>}) :
        Take(n, [user |-> u, pw |-> p], [op |-> "sr.cstart", s |-> n, user |-> u, pw |-> p])
SrSStart(n) ==
    /\ ses[n].kind = "srs" /\ ses[n].st = "new"
    /\ Has(Partner(n), "new")
    /\ LET u == ses[Partner(n)].log[1].in.user IN
        /\ u \in DOMAIN vdb
        /\ Take(n, [v |-> vdb[u].v, salt |-> vdb[u].salt], [op |-> "sr.sstart", s |-> n, user |-> u])
SrPub(t, how, n) ==
    CASE how = "none" -> t
      [] how = "zero" -> SR!IntT(PZero, "plusN")
      [] how = "rand" -> SR!IntT(SR!Unknown(Leaf("adv", <<Name(n)>>)), "any")
SrCReply(n) ==
    /\ ses[n].kind = "src" /\ ses[n].st = "open"
    /\ \E m \in Sources(n, "srs", "new"), how \in Hows({"zero", "rand"}) :
        Take(n, [salt |-> ses[m].log[1].in.salt, pub |-> SrPub(OutOf(m, "new")[1], how, n)],
             [op |-> "sr.creply", s |-> n, src |-> m, how |-> how])
SrSReply(n) ==
    /\ ses[n].kind = "srs" /\ ses[n].st = "open"
    /\ \E m \in Sources(n, "src", "new"), how \in Hows({"zero", "rand"}) :
        Take(n, [pub |-> SrPub(OutOf(m, "new")[1], how, n)], [op |-> "sr.sreply", s |-> n, src |-> m, how |-> how])
Changed(t, how) == IF how = "none" THEN t ELSE Node("changed", <<t>>)
SrSVerify(n) ==
    /\ ses[n].kind = "srs" /\ ses[n].st = "reply"
    /\ \E m \in Sources(n, "src", "open"), how \in Hows({"m"}) :
        Take(n, [proof |-> Changed(OutOf(m, "open")[1], how)], [op |-> "sr.sverify", s |-> n, src |-> m, how |-> how])
SrCVerify(n) ==
    /\ ses[n].kind = "src" /\ ses[n].st = "reply"
    /\ \E m \in Sources(n, "srs", "open"), how \in Hows({"m"}) :
        Take(n, [proof |-> Changed(OutOf(m, "open")[2], how)], [op |-> "sr.cverify", s |-> n, src |-> m, how |-> how])

(* AuCPace *)
AuReg ==
    /\ regs < MaxRegs /\ "au" \in PairKinds
    /\ \E u \in Pick(Users), p \in RegPws, par \in Pick({"A", "B"}), strong \in Pick({c.strong : c \in Cfgs}) :
        LET nm   == "r" \o ToString(regs)
            q    == PAtom(Rnd(nm, "q"))
            salt == IF strong THEN AU!StrongSalt(u, p, q) ELSE Rnd(nm, "salt")
            pt   == Leaf("params", <<par>>)
        IN  /\ db' = Put(db, <<u, strong>>, [w |-> AU!Verifier(u, p, salt, pt), salt |-> salt, q |-> q, par |-> pt])
            /\ Log([op |-> "au.reg", s |-> 0, user |-> u, pw |-> p, par |-> par, strong |-> strong])
    /\ regs' = regs + 1
    /\ UNCHANGED <<ses, vdb, keys, fail>>
AuKey ==
    /\ regs < MaxRegs /\ "au" \in PairKinds /\ \E c \in Cfgs : c.partial
    /\ \E u \in Pick(Users) :
        /\ keys' = Put(keys, u, PAtom(Rnd("k" \o ToString(regs), "x")))
        /\ Log([op |-> "au.key", s |-> 0, user |-> u])
    /\ regs' = regs + 1
    /\ UNCHANGED <<ses, vdb, db, fail>>

Cand(n, st) == ses[n].st = st
AuCStart(n) ==
    /\ ses[n].kind = "auc" /\ Cand(n, "new")
    /\ Take(n, [pre |-> <<"ssid">>], [op |-> "au.cstart", s |-> n, cfg |-> ses[n].cfg])
AuSStart(n) ==
    /\ ses[n].kind = "aus" /\ Cand(n, "new")
    /\ Take(n, [pre |-> <<"ssid">>], [op |-> "au.sstart", s |-> n, cfg |-> ses[n].cfg])
NonceOf(m) == IF ses[m].cfg.pre THEN None ELSE OutOf(m, "new")[1]
AuCAug(n) ==
    /\ ses[n].kind = "auc" /\ Cand(n, "begun")
    /\ \E m \in Sources(n, "aus", "new"), u \in Pick(Users \cup (IF Hostile THEN {<<"u3">>} ELSE {})),
          p \in (IF Hostile /\ Chance(3) THEN Pick(Pws) ELSE {<<"p1">>}) :
        Take(n, [nonce |-> NonceOf(m), user |-> u, pw |-> p], [op |-> "au.caug", s |-> n, src |-> m, user |-> u, pw |-> p])
AuSInfo(n) ==
    /\ ses[n].kind = "aus" /\ Cand(n, "begun")
    /\ \E m \in Sources(n, "auc", "begun") :
        LET o == OutOf(m, "begun")
            u == InOf(m, "begun").user
            strong == ses[n].cfg.strong
        IN  \E how \in Hows(IF strong THEN {"zero", "rand"} ELSE {}) :
            Take(n, [nonce |-> NonceOf(m), user |-> u,
                     blinded |-> IF ~strong THEN EZero ELSE IF how = "zero" THEN EZero
                                 ELSE IF how = "rand" THEN EBase(Leaf("adv", <<Name(n)>>)) ELSE o[2],
                     rec |-> IF <<u, strong>> \in DOMAIN db THEN Some(db[<<u, strong>>]) ELSE No,
                     key |-> IF u \in DOMAIN keys THEN Some(keys[u]) ELSE No],
                 [op |-> "au.sinfo", s |-> n, src |-> m, user |-> u, how |-> how])
Pt(e, how, n) == CASE how = "none" -> e [] how = "zero" -> EZero [] how = "rand" -> EBase(Leaf("adv", <<Name(n)>>))
AuCCpace(n) ==
    /\ ses[n].kind = "auc" /\ Cand(n, "named")
    /\ \E m \in Sources(n, "aus", "begun"), how \in Hows({"zero", "rand"}) :
        LET o == OutOf(m, "begun") IN
        Take(n, [X |-> Pt(o[1], how, n), salt |-> o[2], par |-> o[3]], [op |-> "au.ccpace", s |-> n, src |-> m, how |-> how])
AuPub(n) ==
    /\ ses[n].kind \in {"auc", "aus"} /\ Cand(n, "prs")
    /\ \E ci \in (IF Hostile /\ Chance(1) THEN {<<"i2">>} ELSE {<<"i1">>}) :
        Take(n, [ci |-> ci], [op |-> "au.pub", s |-> n, ci |-> ci])
AuRecv(n) ==
    /\ ses[n].kind \in {"auc", "aus"} /\ Cand(n, "key")
    /\ \E m \in Sources(n, IF ses[n].kind = "auc" THEN "aus" ELSE "auc", "prs"), how \in Hows({"zero", "rand"}) :
        Take(n, [pub |-> Pt(OutOf(m, "prs")[1], how, n)], [op |-> "au.recv", s |-> n, src |-> m, how |-> how])
AuSAuth(n) ==
    /\ ses[n].kind = "aus" /\ Cand(n, "exp")
    /\ \E m \in Sources(n, "auc", "key"), how \in Hows({"m"}) :
        /\ ses[m].cfg.cexp
        /\ Take(n, [auth |-> Changed(OutOf(m, "key")[1], how)], [op |-> "au.auth", s |-> n, src |-> m, how |-> how])
AuCAuth(n) ==
    /\ ses[n].kind = "auc" /\ Cand(n, "exp")
    /\ \E m \in Sources(n, "aus", "exp"), how \in Hows({"m"}) :
        Take(n, [auth |-> Changed(OutOf(m, "exp")[2], how)], [op |-> "au.auth", s |-> n, src |-> m, how |-> how])

Act(n) ==
    \/ SpStart(n) \/ SpFinish(n)
    \/ SrCStart(n) \/ SrSStart(n) \/ SrCReply(n) \/ SrSReply(n) \/ SrSVerify(n) \/ SrCVerify(n)
    \/ AuCStart(n) \/ AuSStart(n) \/ AuCAug(n) \/ AuSInfo(n) \/ AuCCpace(n) \/ AuPub(n) \/ AuRecv(n) \/ AuSAuth(n) \/ AuCAuth(n)

(* sessions are opened in pairs *)
NoCfg == [role |-> "none"]
PairOf(k) ==
    CASE k = "spab" -> {<<"sp", "sp", [role |-> "A", ids |-> <<i, j>>], [role |-> "B", ids |-> <<i, j>>]>> :
                            i \in Pick(Idents), j \in Pick(Idents)}
      [] k = "spss" -> {<<"sp", "sp", [role |-> "S", ids |-> <<i>>], [role |-> "S", ids |-> <<i>>]>> : i \in Pick(Idents)}
      [] k = "srp"  -> {<<"src", "srs", NoCfg, NoCfg>>}
      [] k = "au"   -> {<<"auc", "aus", c, c>> : c \in Pick(Cfgs)}
Open ==
    /\ Len(ses) < 2 * MaxPairs
    /\ \E k \in Pick(PairKinds) : \E p \in PairOf(k) :
        /\ ses' = ses \o <<Fresh(p[1], Len(ses) + 1, p[3]), Fresh(p[2], Len(ses) + 2, p[4])>>
        /\ UNCHANGED <<vdb, db, keys, regs, fail, hist>>

(* a session is given up; nothing else notices *)
Abandon(n) ==
    /\ Hostile /\ Chance(1) /\ ses[n].st \notin {"new", "done", "gone"}
    /\ ses' = [ses EXCEPT ![n].st = "gone"]
    /\ Log([op |-> "drop", s |-> n])
    /\ UNCHANGED <<vdb, db, keys, regs, fail>>

(* in a walk: nothing happens *)
Idle == Depth > 0 /\ Len(ses) = 2 * MaxPairs /\ UNCHANGED vars

Init ==
    /\ ses = <<>> /\ vdb = EmptyFn /\ db = EmptyFn /\ keys = EmptyFn /\ regs = 0 /\ hist = <<>>
    /\ fail \in (IF Hostile THEN 0 .. 3 ELSE {0})

Next == Open \/ SrReg \/ AuReg \/ AuKey \/ (\E n \in DOMAIN ses : Act(n)) \/ (\E n \in Pick(DOMAIN ses) : Abandon(n)) \/ Idle
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* each session is what it would be alone *)
NonInterference == \A n \in DOMAIN ses : Alone(ses[n]).log = ses[n].log

(* a step touches one session, opening or registering none *)
Isolation == [][\A n \in DOMAIN ses : \A m \in DOMAIN ses :
                   (ses'[n] # ses[n] /\ ses'[m] # ses[m]) => n = m]_vars

KeyOf(s) ==
    LET done == {i \in DOMAIN s.log : s.log[i].status = "Ok"} IN
    CASE s.kind = "sp" -> IF s.st = "done" /\ 2 \in done THEN s.log[2].out[1] ELSE None
      [] s.kind \in {"src", "srs"} -> IF s.st = "done" /\ 3 \in done THEN s.log[2].out[3] ELSE None
      [] s.kind = "auc" -> IF s.st = "done" /\ s.log[Len(s.log)].status = "Ok" THEN s.log[Len(s.log)].out[1] ELSE None
      [] s.kind = "aus" -> IF s.st = "done" /\ s.log[Len(s.log)].status = "Ok" THEN s.log[Len(s.log)].out[1] ELSE None
(* what a session took for its partner's public value, and what it sent as its own *)
TakenAt(s) == CASE s.kind = "sp" -> "open" [] s.kind \in {"src", "srs"} -> "open" [] OTHER -> "key"
SentAt(s)  == CASE s.kind = "sp" -> "new" [] s.kind \in {"src", "srs"} -> "new" [] OTHER -> "prs"
At(s, st)  == s.log[CHOOSE i \in DOMAIN s.log : s.log[i].at = st]
Taken(s)   == LET in == At(s, TakenAt(s)).in IN IF s.kind = "sp" THEN SP!Sp!MsgTerm(in.msg) ELSE in.pub
Sent(s)    == At(s, SentAt(s)).out[1]
Ends(s, t) == \/ s.kind = "sp" /\ t.kind = "sp" /\ t.cfg.role = SP!Sp!PeerTag(s.cfg.role) /\ s.cfg.ids = t.cfg.ids
              \/ {s.kind, t.kind} \in {{"src", "srs"}, {"auc", "aus"}}
(* two sessions that share a key are the two ends of one conversation: each took what the other sent *)
KeySeparation ==
    \A n, m \in DOMAIN ses :
        (n < m /\ KeyOf(ses[n]) # None /\ KeyOf(ses[n]) = KeyOf(ses[m])) =>
            Ends(ses[n], ses[m]) /\ Taken(ses[n]) = Sent(ses[m]) /\ Taken(ses[m]) = Sent(ses[n])

(* and two ends that heard each other, with the same inputs, do share it: nothing else that happens keeps them from it *)
Met(s, t) ==
    /\ s.kind = "sp" /\ t.kind = "sp" /\ Ends(s, t)
    /\ Len(s.log) = 2 /\ Len(t.log) = 2 /\ s.log[1].in.pw = t.log[1].in.pw
    /\ s.log[2].in.msg = SP!Sp!Message(t.x) /\ t.log[2].in.msg = SP!Sp!Message(s.x)
KeyAgreement ==
    \A n, m \in DOMAIN ses : (n # m /\ Met(ses[n], ses[m])) => KeyOf(ses[n]) # None /\ KeyOf(ses[n]) = KeyOf(ses[m])

Emit == (Depth > 0 /\ TLCGet("level") = Depth) => PrintT(ToJson([ev |-> hist]))
=============================================================================
