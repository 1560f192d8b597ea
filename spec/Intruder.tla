------------------------------ MODULE Intruder -------------------------------
(***************************************************************************)
(* What an intruder can compute who lacks the one thing that the protocol  *)
(* asks for: somebody who meddles with a session on a wrong guess of the   *)
(* password and tries other passwords afterwards, who has stolen a         *)
(* verifier, or who has listened and learns the password later.            *)
(*                                                                         *)
(* Everything is written additively: an element is a linear combination of *)
(* bases (SRP: powers of g, or of sums, which are bases of their own) with *)
(* polynomials of scalars.  A scene says what the intruder sends, what he  *)
(* then knows (elements by name, scalars) and what he is after (the shared *)
(* element behind a key, the one behind a password-related string, or the  *)
(* salt of the strong variant).  Secret says that no combination of the    *)
(* known elements with polynomials of known scalars is the target; the     *)
(* harness tries, in the real code, the combinations of up to `most`       *)
(* products from the scene's coefficients and elements.                    *)
(***************************************************************************)
EXTENDS Terms, Json

CONSTANTS Pairs       \* how many products the intruder's message has at most

At(x)   == PAtom(Leaf("scalar", <<x>>))
Inv(x)  == PInv(At(x))
Ba(x)   == EBase(Leaf("base", <<x>>))

(* a coefficient: a product of scalars and inverses, with a sign *)
Co(w)   == [w |-> w, n |-> 1]
Neg(c)  == [c EXCEPT !.n = -@]
Flip(s) == s \cup {Neg(c) : c \in s}
One1    == Co(<<>>)
RECURSIVE Prod(_)
Prod(w) == IF w = <<>> THEN POne
           ELSE PMul(IF Head(w)[1] = "/" THEN Inv(Head(w)[2]) ELSE At(Head(w)[2]), Prod(Tail(w)))
CoP(c)  == IF c.n = 1 THEN Prod(c.w) ELSE PNeg(Prod(c.w))
Is(x)   == <<"*", x>>
Over(x) == <<"/", x>>

(* a combination: a set of <<coefficient, name>>, given the elements by name *)
Comb(m, el) == LET q == SetSeq(m)
                   F(i) == EMul(CoP(q[i][1]), el[q[i][2]])
                   RECURSIVE Sum(_)
                   Sum(i) == IF i = 0 THEN EZero ELSE EAdd(F(i), Sum(i - 1))
               IN  Sum(Len(q))
Upto(S, n)  == { {p} : p \in S } \cup (IF n > 1 THEN { {p, q} : p \in S, q \in S } ELSE {})

(* the part of a product that the intruder does not know *)
Hidden(l, known) == LET e == l.a[1].e
                        unk == {a \in DOMAIN e : a.v[1] \notin known}
                    IN  <<[a \in unk |-> e[a]], l.a[2]>>
Parts(x, known)  == {Hidden(l, known) : l \in DOMAIN x.e}

(* enough for not being derivable: a part of the target that no known element has *)
Underivable(t, el, known) ==
    LET have == UNION {Parts(el[n], known) : n \in DOMAIN el} IN
    Parts(t, known) \ have # {}

Scene(proto, name, who, msg, sent, el, known, t, after, how, most, ctrl) ==
    [proto |-> proto, name |-> name, who |-> who, msg |-> msg, sent |-> sent, el |-> el, known |-> known,
     target |-> t, after |-> after, how |-> how, most |-> most, control |-> ctrl]
NoMsg == {}

-----------------------------------------------------------------------------
(* SPAKE2.  x is the victim's exponent, pw its password, pg the guess.  The key *)
(* hashes x*(Y - pw*U'), Y the message received.  Xu is the victim's message     *)
(* without the password's part.                                                 *)
Roles     == {"A", "B", "S"}
Own(r)    == CASE r = "A" -> "M" [] r = "B" -> "N" [] r = "S" -> "S"
Peer(r)   == CASE r = "A" -> "N" [] r = "B" -> "M" [] r = "S" -> "S"
(* the bases of which nobody knows a relation, as published with python-spake2 *)
Published == [M |-> "15cfd18e385952982b6a8f8c7854963b58e34388c8e6dae891db756481a02312",
              N |-> "f04f2e7eb734b2a8f8b472eaf9c3c632576ac64aea650b496a8a20ff00e583c3",
              S |-> "6f00dae87c1be1a73b5922ef431cd8f57879569c222d22b1cd71e8546ab8e6f1"]
SpX(r)    == EAdd(EMul(At("x"), Ba("B")), EMul(At("pw"), Ba(Own(r))))
SpEl(r)   == [n \in {"B", "M", "N", "S", "X", "Xu"} |->
                CASE n = "X" -> SpX(r) [] n = "Xu" -> EMul(At("x"), Ba("B")) [] OTHER -> Ba(n)]
SpT(r, Y) == EMul(At("x"), EAdd(Y, EMul(PNeg(At("pw")), Ba(Peer(r)))))
SpCoefs   == {One1, Co(<<Is("y")>>), Co(<<Is("pg")>>), Co(<<Is("y"), Is("pg")>>)}
SpSend(r) == Upto((SpCoefs \cup {Neg(One1), Neg(Co(<<Is("pg")>>))}) \X {"B", Peer(r), Own(r), "X"}, Pairs)
SpUse     == Flip({One1, Co(<<Is("y")>>), Co(<<Is("pg")>>), Co(<<Is("pw")>>), Co(<<Is("y"), Is("pw")>>), Co(<<Is("y"), Is("pg")>>)})
SpKnown   == {"y", "pg", "pw"}
Plain(r)  == { <<Co(<<Is("y")>>), "B">>, <<Co(<<Is("pg")>>), Peer(r)>> }

SpakeScenes ==
    UNION {
      (* a wrong guess, other passwords tried afterwards *)
      { Scene("spake", "guess", r, m, Comb(m, SpEl(r)), SpEl(r), SpKnown, SpT(r, Comb(m, SpEl(r))), "key", SpUse,
              IF m = Plain(r) THEN 3 ELSE 2, {}) : m \in SpSend(r) }
      (* a right guess *)
      \cup { LET m == { <<Co(<<Is("y")>>), "B">>, <<Co(<<Is("pw")>>), Peer(r)>> } IN
             Scene("spake", "right", r, m, Comb(m, SpEl(r)), SpEl(r), SpKnown, SpT(r, Comb(m, SpEl(r))), "key", SpUse, 3,
                   { <<Co(<<Is("y")>>), "X">>, <<Neg(Co(<<Is("y"), Is("pw")>>)), Own(r)>> }) }
      (* two honest sides, the password comes out later *)
      \cup { LET Y  == EAdd(EMul(At("x2"), Ba("B")), EMul(At("pw"), Ba(Peer(r))))
                 el == [n \in DOMAIN SpEl(r) \cup {"Y"} |-> IF n = "Y" THEN Y ELSE SpEl(r)[n]]
             IN Scene("spake", "overheard", r, NoMsg, Y, el, {"pw"}, SpT(r, Y), "key",
                      Flip({One1, Co(<<Is("pw")>>), Co(<<Is("pw"), Is("pw")>>)}), 3, {}) }
      (* the secrets of another session with the same password, in which the victim received the same *)
      \cup { LET Y  == EMul(At("y"), Ba("B"))
                 el == [n \in DOMAIN SpEl(r) \cup {"Y", "X1"} |->
                          CASE n = "Y" -> Y [] n = "X1" -> EMul(At("x1"), Ba("B")) [] OTHER -> SpEl(r)[n]]
             IN Scene("spake", "another", r, { <<Co(<<Is("y")>>), "B">> }, Y, el, {"pw", "x1", "y"}, SpT(r, Y), "key",
                      Flip({One1, Co(<<Is("x1")>>), Co(<<Is("y")>>), Co(<<Is("pw")>>), Co(<<Is("x1"), Is("pw")>>)}), 2, {}) }
      : r \in Roles }

-----------------------------------------------------------------------------
(* SRP, in exponents of g.  B = k*v + g^b is a base of its own, Bp is B - k*v.     *)
(* u depends on what is sent, so it cannot be used in it; u0, uB, uBB are hashes    *)
(* of what is there before, and uP is the hash of a part of what is sent (however    *)
(* long that is) and B, where the rest is made to fit afterwards.                  *)
GP(p)    == EMul(p, Ba("g"))
SrpEl    == [n \in {"g", "v", "Bp", "B"} |-> CASE n = "g" -> GP(POne) [] n = "v" -> GP(At("x")) [] n = "Bp" -> GP(At("b")) [] n = "B" -> Ba("B")]
SrpSent  == {One1, Neg(One1), Co(<<Is("a")>>), Neg(Co(<<Is("k")>>)), Neg(Co(<<Is("u0")>>)), Neg(Co(<<Is("uB")>>)), Neg(Co(<<Is("uBB")>>)), Neg(Co(<<Is("uP")>>))}
SrpUse   == Flip({One1, Co(<<Is("a")>>), Co(<<Is("u")>>), Co(<<Is("a"), Is("u")>>), Co(<<Is("k")>>), Co(<<Is("k"), Is("u")>>)})
ServerT(A) == EMul(At("b"), EAdd(A, GP(PMul(At("u"), At("x")))))
Before   == {"a", "k", "u0", "uB", "uBB", "uP"}

(* what a server without the verifier may answer; the client takes k*v from it *)
Forms    == {"pow", "guess", "reflect", "k times A", "k times pow", "k", "k times guess"}
FakeEl(f) == [n \in {"g", "A", "v", "D", "Bs"} |->
                CASE n = "g" -> GP(POne) [] n = "A" -> GP(At("a")) [] n = "v" -> GP(At("x"))
                  [] n = "D" -> Ba("D") [] n = "Bs" -> Ba("Bs")]
ClientT(D) == EMul(PAdd(At("a"), PMul(At("u"), At("x"))), D)

SrpScenes ==
    (* a stolen verifier *)
    { LET A == Comb(m, SrpEl) IN
      Scene("srp", "stolen", "server", m, A, SrpEl, Before \cup {"u"}, ServerT(A), "key", SrpUse, 2, {})
        : m \in Upto(SrpSent \X DOMAIN SrpEl, Pairs) }
    (* the client's password *)
    \cup { LET m == { <<Co(<<Is("a")>>), "g">> }  A == Comb(m, SrpEl) IN
           Scene("srp", "password", "server", m, A, SrpEl, Before \cup {"u", "x"}, ServerT(A), "key",
                 SrpUse \cup {Co(<<Is("u"), Is("x")>>)}, 2,
                 { <<Co(<<Is("a")>>), "Bp">>, <<Co(<<Is("u"), Is("x")>>), "Bp">> }) }
    (* a server that lacks the verifier, and tries passwords afterwards *)
    \cup { Scene("srp", "fake", "client", { <<One1, f>> }, Ba("Bs"), FakeEl(f), {"b", "xg", "x", "u", "k"}, ClientT(Ba("D")), "key",
                 Flip({One1, Co(<<Is("b")>>), Co(<<Is("u"), Is("x")>>), Co(<<Is("u"), Is("x"), Is("b")>>), Co(<<Is("u"), Is("xg")>>),
                       Co(<<Is("u"), Is("xg"), Is("b")>>), Co(<<Is("x")>>), Co(<<Is("u")>>), Co(<<Is("k")>>)}), 2, {}) : f \in Forms }
    \cup { Scene("srp", "fake right", "client", { <<One1, "right">> }, Ba("Bs"), [FakeEl("guess") EXCEPT !["D"] = GP(At("b"))],
                 {"b", "x", "u", "k"}, ClientT(GP(At("b"))), "key",
                 {One1, Co(<<Is("b")>>), Co(<<Is("u"), Is("x"), Is("b")>>)}, 2,
                 { <<Co(<<Is("b")>>), "A">>, <<Co(<<Is("u"), Is("x"), Is("b")>>), "g">> }) }
    (* an honest handshake, the password comes out later *)
    \cup { LET el == [n \in DOMAIN SrpEl \cup {"A"} |-> IF n = "A" THEN GP(At("a")) ELSE SrpEl[n]] IN
           Scene("srp", "overheard", "server", NoMsg, GP(At("a")), el, {"x", "u", "k"}, ServerT(GP(At("a"))), "key",
                 Flip({One1, Co(<<Is("x")>>), Co(<<Is("u")>>), Co(<<Is("u"), Is("x")>>), Co(<<Is("k")>>), Co(<<Is("u"), Is("x"), Is("x")>>)}), 2, {}) }

-----------------------------------------------------------------------------
(* AuCPace.  W = w*B is the verifier, X = x*B the server's public key, G the     *)
(* generator that SSID, PRS and channel identifier give, G2 that of a wrong PRS, *)
(* Z and Zg the points of the true and of the guessed password, U the blinded    *)
(* point of a client.                                                            *)
Au(n) == CASE n = "W" -> EMul(At("w"), Ba("B")) [] n = "X" -> EMul(At("xs"), Ba("B"))
           [] n = "Wg" -> EMul(At("wg"), Ba("B"))
           [] n = "Ya" -> EMul(At("ya"), Ba("G")) [] n = "Yb" -> EMul(At("yb"), Ba("G"))
           [] n = "O" -> EZero
           [] n = "U" -> EMul(At("ru"), Ba("Z"))
           [] OTHER -> Ba(n)
AuEl(ns) == [n \in ns |-> Au(n)]
AuOne    == {One1, Co(<<Is("r")>>)}
Modes    == {"plain", "strong", "partial", "partial strong"}
Strong(v) == v \in {"strong", "partial strong"}

AuScenes ==
    UNION {
      (* a stolen verifier: the password-related string of a session with the server *)
      { LET ns == {"O", "B", "W", "X"} \cup (IF Strong(v) THEN {"Z", "Q"} ELSE {})
            el == [n \in ns |-> IF n = "Q" THEN EMul(PMul(At("q"), At("r")), Ba("B")) ELSE Au(n)]
        IN  Scene("aucpace", "stolen", v, NoMsg, EZero, el, {"r"}, EMul(At("xs"), Au("W")), "prs",
                 Flip(AuOne), 2, {}) }
      (* a name that the server does not know *)
      \cup { Scene("aucpace", "unknown", v, NoMsg, EZero, AuEl({"O", "B", "X"}), {"r"}, Ba("fresh"), "prs", Flip(AuOne), 2, {}) }
      (* with the password, or with the verifier in the server's place *)
      \cup { Scene("aucpace", "password", v, NoMsg, EZero, AuEl({"B", "X"}), {"r", "w"}, EMul(At("xs"), Au("W")), "prs",
                   {One1, Co(<<Is("w")>>)}, 2, { <<Co(<<Is("w")>>), "X">> }) }
      \cup { LET m == { <<Co(<<Is("r")>>), "B">> } IN
             Scene("aucpace", "verifier", v, m, Comb(m, AuEl({"B"})), AuEl({"B", "W"}), {"r"},
                   EMul(PMul(At("w"), At("r")), Ba("B")), "prs", AuOne, 2, { <<Co(<<Is("r")>>), "W">> }) }
      (* the key of a server's session, with a message that is not made from the password-related string *)
      \cup { LET el == AuEl({"B", "W", "X", "Yb", "R"}) Ya == Comb(m, el) IN
             Scene("aucpace", "direct", v, m, Ya, el, {"r", "h", "w"}, EMul(At("yb"), Ya), "key",
                   Flip(AuOne \cup {Co(<<Is("r"), Over("h")>>), Co(<<Is("r"), Is("r")>>)}), 2, {})
               : m \in Upto(AuOne \X {"B", "W", "X", "Yb", "R"}, Pairs) }
      (* a server that lacks the verifier: the password-related string of a client *)
      \cup { LET el == [n \in {"O", "B", "Xs"} \cup (IF Strong(v) THEN {"U"} ELSE {}) |->
                          IF n = "Xs" THEN Comb(m, AuEl({"B", "R"})) ELSE Au(n)]
             IN  Scene("aucpace", "fake", v, m, el["Xs"], el, {"r"}, EMul(At("w"), el["Xs"]), "prs", Flip(AuOne), 2, {})
               : m \in Upto(AuOne \X {"B", "R"}, Pairs) }
      (* a server that guesses a password and tries others afterwards *)
      \cup { LET el == AuEl({"B", "G", "G2", "Ya", "W", "Wg"}) IN
             Scene("aucpace", "guess", v, NoMsg, EMul(At("r"), Ba("G2")), el, {"r", "h", "h2", "w", "wg"},
                   EMul(PMul(At("ya"), At("r")), Ba("G2")), "key",
                   Flip(AuOne \cup {Co(<<Is("r"), Is("h2"), Over("h")>>), Co(<<Is("r"), Is("w")>>), Co(<<Is("r"), Is("wg")>>), Co(<<Is("w")>>)}), 2, {}) }
      \cup { LET el == AuEl({"B", "G", "Ya", "W"}) IN
             Scene("aucpace", "right", v, NoMsg, EMul(At("r"), Ba("G")), el, {"r", "h", "h2", "w", "wg"},
                   EMul(PMul(At("ya"), At("r")), Ba("G")), "key", Flip(AuOne), 2, { <<Co(<<Is("r")>>), "Ya">> }) }
      (* an honest session, the password comes out later *)
      \cup { LET el == AuEl({"B", "G", "Ya", "Yb", "W", "X"}) IN
             Scene("aucpace", "overheard", v, NoMsg, Au("Yb"), el, {"w", "h"}, EMul(At("ya"), Au("Yb")), "key",
                   Flip({One1, Co(<<Is("w")>>), Co(<<Over("h")>>)}), 3, {}) }
      (* another session of the client with the same SSID and the same answers *)
      \cup { LET el == [n \in {"B", "G", "Ya", "Y1", "Yb"} |->
                          CASE n = "Y1" -> EMul(At("y1"), Ba("G")) [] n = "Yb" -> EMul(At("r"), Ba("R")) [] OTHER -> Au(n)]
             IN  Scene("aucpace", "another", v, { <<Co(<<Is("r")>>), "R">> }, el["Yb"], el, {"y1", "r", "h"}, EMul(At("ya"), el["Yb"]), "key",
                       Flip({One1, Co(<<Is("r")>>), Co(<<Over("h")>>)}), 2, {}) }
      : v \in Modes }
    (* strong: the salt of one password from an answer to another *)
    \cup UNION { { LET el0 == AuEl({"B", "Z", "Zg"})
               Us  == Comb(m, el0)
               el  == [n \in {"B", "Z", "Zg", "Us", "Q"} |-> CASE n = "Us" -> Us [] n = "Q" -> EMul(At("q"), Us) [] OTHER -> Au(n)]
           IN  Scene("aucpace", "salt", v, m, Us, el, {"r", "hz", "hg"}, EMul(At("q"), Ba("Z")), "salt",
                     Flip({One1, Co(<<Is("r")>>), Co(<<Over("r")>>), Co(<<Over("r"), Over("hg"), Is("hz")>>), Co(<<Over("r"), Is("hz")>>)}), 2, {})
             : m \in Upto(AuOne \X {"Zg", "B"}, Pairs) } : v \in {"strong", "partial strong"} }
    \cup { LET m  == { <<Co(<<Is("r")>>), "Z">> }
               Us == Comb(m, AuEl({"Z"}))
               el == [n \in {"B", "Z", "Us", "Q"} |-> CASE n = "Us" -> Us [] n = "Q" -> EMul(At("q"), Us) [] OTHER -> Au(n)]
           IN  Scene("aucpace", "salt right", "strong", m, Us, el, {"r"}, EMul(At("q"), Ba("Z")), "salt",
                     {One1, Co(<<Is("r")>>), Co(<<Over("r")>>)}, 2, { <<Co(<<Over("r")>>), "Q">> }) }

-----------------------------------------------------------------------------
VARIABLES scene, done
vars == <<scene, done>>
Init == /\ scene \in SpakeScenes \cup SrpScenes \cup AuScenes
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED scene
Spec == Init /\ [][Next]_vars

(* a message that is neutral is refused or worthless *)
Idle   == scene.proto # "srp" /\ scene.after = "key" /\ scene.sent = EZero
Right  == scene.control # {}
Secret == (~Right /\ ~Idle) => Underivable(scene.target, scene.el, scene.known)
(* who has what it takes gets what he is after, so the intruders speak the protocols *)
Control == Right => Comb(scene.control, scene.el) = scene.target

(* a key, a proof and the generator of a password-related string hash a secret element: *)
(* nothing hashed from public values alone is one.                                      *)
Publics == CASE scene.proto = "srp" /\ scene.name = "stolen" -> <<"A", "B", "v", "salt", "user", "N", "g", "u", "k">>
             [] scene.proto = "srp" /\ scene.name = "fake"   -> <<"A", "B", "salt", "user", "N", "g", "u", "k", "M1">>
             [] scene.name = "direct" -> <<"ssid", "Ya", "Yb", "W", "X", "salt">>
             [] scene.proto = "aucpace" /\ scene.name = "fake" -> <<"ssid", "Ya", "Yb", "X", "salt", "Tb", "ci", "user">>
             [] scene.proto = "srp" /\ scene.name = "overheard" -> <<"A", "B", "v", "salt", "user", "N", "g", "u", "k", "M1", "x">>
             [] scene.proto = "aucpace" /\ scene.name = "overheard" -> <<"ssid", "Ya", "Yb", "W", "X", "salt", "user", "pw", "ci">>
             [] scene.proto = "aucpace" /\ scene.name \in {"stolen", "unknown"} -> <<"ssid", "ci", "user", "X", "W", "salt">>
             [] scene.proto = "spake" -> <<"pw", "idA", "idB", "X", "Y">>
             [] OTHER -> <<>>
Bases == IF scene.proto = "spake" THEN Published ELSE [B |-> "of ristretto255"]
CoOut(c)  == [w |-> c.w, n |-> c.n]
PairsOut(m) == LET q == SetSeq(m) IN [i \in DOMAIN q |-> [c |-> CoOut(q[i][1]), b |-> q[i][2]]]
Emit == (done /\ ~Idle) =>
    PrintT(ToJson([proto |-> scene.proto, name |-> scene.name, who |-> scene.who,
                   msg |-> PairsOut(scene.msg),
                   els |-> SetSeq(DOMAIN scene.el), coefs |-> LET q == SetSeq(scene.how) IN [i \in DOMAIN q |-> CoOut(q[i])],
                   publics |-> Publics, bases |-> Bases, after |-> scene.after, most |-> scene.most, control |-> Right]))
=============================================================================
