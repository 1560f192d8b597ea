------------------------------ MODULE AuCPace -------------------------------
(***************************************************************************)
(* The formulas of AuCPace and strong AuCPace (table in aucpace/src/lib.rs,*)
(* eprint 2018/286) as terms.  H0..H5 are one hash function tagged with the *)
(* index; B is the base point; "map" sends a hash to a group element of    *)
(* unknown discrete logarithm; "enc" is the encoding of a group element;   *)
(* "pbkdf" the password hash and "w" its reading as a scalar.              *)
(***************************************************************************)
EXTENDS Terms

H(n, args) == Hash(n, args)
Enc(e)     == Node("enc", <<e>>)
Map(h)     == EBase(Node("map", <<h>>))
B          == EBase(Leaf("B", <<>>))
S(t)       == PAtom(t)             \* a scalar
SInv(p)    == PInv(p)

(* SSIDs: s is the server's nonce, t the client's *)
Ssid(s, t)    == H("H0", <<s, t>>)
SsidPre(str)  == H("H0", <<Str(str)>>)

(* password hash over "user:password" *)
Login(user, pw)       == user \o <<"colon">> \o pw
Pbkdf(user, pw, salt, params) == Node("pbkdf", <<Str(Login(user, pw)), salt, params>>)
W(user, pw, salt, params)     == S(Node("w", <<Pbkdf(user, pw, salt, params)>>))

(* the point of the strong variant that user and password determine *)
Z(user, pw) == Map(H("H1", <<Str(user \o pw)>>))

(* registration: what the server is to store *)
StrongSalt(user, pw, q) == Enc(EMul(q, Z(user, pw)))
Verifier(user, pw, salt, params) == EMul(W(user, pw, salt, params), B)

(* augmentation layer *)
Blind(user, pw, r)  == EMul(r, Z(user, pw))
PrsServer(x, w)     == Enc(EMul(x, w))
PrsClient(user, pw, salt, params, X) == Enc(EMul(W(user, pw, salt, params), X))

(* CPace substep *)
Gen(ssid, prs, ci)  == Map(H("H1", <<ssid, prs, Str(ci)>>))
Pub(ssid, prs, ci, y) == EMul(y, Gen(ssid, prs, ci))
Sk1(ssid, y, P)     == H("H2", <<ssid, Enc(EMul(y, P))>>)

(* explicit authentication and the session key *)
Ta(ssid, sk1) == H("H3", <<ssid, sk1>>)
Tb(ssid, sk1) == H("H4", <<ssid, sk1>>)
Sk(ssid, sk1) == H("H5", <<ssid, sk1>>)

(* what a server tells about a name it does not know: functions of its secret *)
DecoySalt(secret, user)   == Node("decoysalt", <<secret, Str(user)>>)
DecoyExp(secret, user)    == S(Node("decoyexp", <<secret, Str(user)>>))
DecoyPk(secret, user)     == EBase(Node("decoypk", <<secret, Str(user)>>))
DefaultParams             == Leaf("params", <<"default">>)

Neutral(e) == e = EZero
=============================================================================
