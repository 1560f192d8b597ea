# intruders
BUGS = []


def bug(id, prop, needs, breaks, edits, main, aucpace=False, demo=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main, aucpace=aucpace, demo=list(demo)))


SP = "spake2/src/lib.rs"
ED = "spake2/src/ed25519.rs"
AS = "aucpace/src/server.rs"
AC = "aucpace/src/client.rs"
UT = "aucpace/src/utils.rs"
SC = "srp/src/client.rs"
SS = "srp/src/server.rs"
SU = "srp/src/utils.rs"
SPUSE = r"""#[allow(unused_imports)]
use spake2::{Ed25519Group, Group, Identity, Password, Spake2};
#[allow(unused_imports)]
use curve25519_dalek::{constants::ED25519_BASEPOINT_POINT as B, edwards::CompressedEdwardsY, scalar::Scalar, traits::Identity as _};
#[allow(unused_imports)]
use sha2::{Digest, Sha256};
type S = Spake2<Ed25519Group>;
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
#[allow(dead_code)] fn h(b: &[u8]) -> Vec<u8> { Sha256::digest(b).to_vec() }
"""
SRUSE = r"""#[allow(unused_imports)]
use num_bigint::BigUint;
#[allow(unused_imports)]
use srp::{client::SrpClient, server::SrpServer, groups::{G_1024, G_2048}, types::{SrpAuthError, SrpGroup}};
#[allow(unused_imports)]
use sha2::{Digest, Sha256};
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
#[allow(dead_code)] fn rnd(n: u64) -> Vec<u8> { Sha256::digest(n.to_le_bytes()).to_vec() }
#[allow(dead_code)] fn big(b: &[u8]) -> BigUint { BigUint::from_bytes_be(b) }
"""

bug("sp-anonymous-key", "S09",
    "a symmetric exchange without identity, and somebody who listens and knows or guesses the password",
    "without an identity the symmetric key is the hash of the password and the two messages only, so that recordings can be searched for the password",
    [(ED, """        hash.update(msg_v);
        hash.update(msg_u);
    }
    hash.update(key_bytes);
""", """        hash.update(msg_v);
        hash.update(msg_u);
    }
    if !id_s.is_empty() {
        hash.update(key_bytes);
    }
""")],
    SPUSE + r"""
fn main() {
    for id in [&b""[..], b"id"] {
        let (p, i) = (Password::new(b"password"), Identity::new(id));
        let (s, m) = S::start_symmetric(&p, &i);
        let (_, n) = S::start_symmetric(&p, &i);
        let key = s.finish(&n).unwrap();
        let (x, y) = if m < n { (&m[1..], &n[1..]) } else { (&n[1..], &m[1..]) };
        // what somebody computes who has listened and guesses the password
        check(h(&[&h(b"password")[..], &h(id), x, y].concat()) != key, "the key is not a function of the recording and the password");
    }
}
""")

bug("sp-known-s", "S09",
    "a symmetric exchange with somebody who knows how S was made",
    "S is a known multiple of the base point, so that one exchange lets every password be tried",
    [(ED, """        CompressedEdwardsY([
            0x6f, 0x00, 0xda, 0xe8, 0x7c, 0x1b, 0xe1, 0xa7, 0x3b, 0x59, 0x22, 0xef, 0x43, 0x1c,
            0xd8, 0xf5, 0x78, 0x79, 0x56, 0x9c, 0x22, 0x2d, 0x22, 0xb1, 0xcd, 0x71, 0xe8, 0x54,
            0x6a, 0xb8, 0xe6, 0xf1,
        ])
        .decompress()
        .unwrap()
""", """        ED25519_BASEPOINT_POINT * ed25519_hash_to_scalar(b"symmetric")
""")],
    SPUSE + r"""
fn main() {
    let (p, i) = (Password::new(b"password"), Identity::new(b"id"));
    let (s, m) = S::start_symmetric(&p, &i);
    // an intruder who does not know the password
    let y = Scalar::from(123456789u64);
    let mut n = vec![b'S'];
    n.extend((B * y).compress().as_bytes());
    let key = s.finish(&n).unwrap();
    // and who tries passwords afterwards, with a guess of how S was made
    let t = Ed25519Group::hash_to_scalar(b"symmetric");
    let x = CompressedEdwardsY::from_slice(&m[1..]).unwrap().decompress().unwrap();
    for guess in ["123456", "password"] {
        let w = Ed25519Group::hash_to_scalar(guess.as_bytes());
        let k = (x - B * (w * t)) * (y - w * t);
        let (a, b) = if m < n { (&m[1..], &n[1..]) } else { (&n[1..], &m[1..]) };
        check(h(&[&h(guess.as_bytes())[..], &h(b"id"), a, b, k.compress().as_bytes()].concat()) != key, "passwords cannot be tried afterwards");
    }
}
""")

bug("sp-echo", "S09",
    "a peer that answers with the point of the session's own message under the role expected",
    "a session whose own point comes back takes the unblinded point as shared element instead of multiplying",
    [(SP, """        let key_element = G::scalarmult(&tmp2, &self.xy_scalar);
""", """        let key_element = if msg2[1..] == self.msg1[..] {
            // both sides hold the same element: nothing to combine
            tmp2
        } else {
            G::scalarmult(&tmp2, &self.xy_scalar)
        };
""")],
    SPUSE + r"""
fn main() {
    let (p, a, b) = (Password::new(b"password"), Identity::new(b"a"), Identity::new(b"b"));
    let (s, m) = S::start_a(&p, &a, &b);
    let mut n = m.clone();
    n[0] = b'B';
    let Ok(key) = s.finish(&n) else { return };
    // the intruder knows no exponent, and tries passwords
    let x = CompressedEdwardsY::from_slice(&m[1..]).unwrap().decompress().unwrap();
    for guess in ["123456", "password"] {
        let w = Ed25519Group::hash_to_scalar(guess.as_bytes());
        let t = x - Ed25519Group::const_n() * w;
        let k = t;
        check(h(&[&h(guess.as_bytes())[..], &h(b"a"), &h(b"b"), &m[1..], &n[1..], k.compress().as_bytes()].concat()) != key,
            "who knows no exponent knows no key");
    }
}
""")

bug("sr-wide-a", "R07",
    "a stolen verifier and a public value of the client that is not reduced modulo N",
    "public values above the modulus are left out of the hash u, so that it can be known before one is chosen",
    [(SS, """        let u = compute_u::<D>(&a_pub.to_bytes_be(), &b_pub.to_bytes_be());
""", """        let u = if a_pub < self.params.n {
            compute_u::<D>(&a_pub.to_bytes_be(), &b_pub.to_bytes_be())
        } else {
            compute_u::<D>(&[], &b_pub.to_bytes_be())
        };
""")],
    SRUSE + r"""
fn main() {
    let (c, s) = (SrpClient::<Sha256>::new(&G_1024), SrpServer::<Sha256>::new(&G_1024));
    let v = c.compute_verifier(b"alice", b"password", b"salt");
    let (n, g) = (&G_1024.n, &G_1024.g);
    let b = rnd(1);
    let bp = s.compute_public_ephemeral(&b, &v);
    // a thief of the verifier
    let a = big(&rnd(2));
    let k = srp::utils::compute_k::<Sha256>(&G_1024);
    let u = srp::utils::compute_u::<Sha256>(&[], &bp);
    let ap = g.modpow(&a, n) * big(&v).modpow(&(n - 1u32 - u % (n - 1u32)), n) % n + n;
    let gb = (big(&bp) + n - k * big(&v) % n) % n;
    if let Ok(x) = s.process_reply(&b, &v, &ap.to_bytes_be()) {
        check(big(x.key()) != gb.modpow(&a, n), "a stolen verifier is no password");
    }
}
""")

bug("sr-wide-b", "R07",
    "a false server whose public value is not reduced modulo N",
    "the client takes public values above the modulus as they are, without the verifier's part, so that one handshake lets every password be tried",
    [(SC, """        let base = ((&self.params.n + b_pub) - &base) % &self.params.n;
""", """        let base = if b_pub > &self.params.n {
            b_pub % &self.params.n
        } else {
            ((&self.params.n + b_pub) - &base) % &self.params.n
        };
""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let (n, g) = (&G_1024.n, &G_1024.g);
    let (a, b) = (rnd(1), big(&rnd(2)));
    // who answers has never seen the verifier
    let bp = (g.modpow(&b, n) + n).to_bytes_be();
    let Ok(v) = c.process_reply(&a, b"alice", b"password", b"salt", &bp) else { return };
    let ap = c.compute_public_ephemeral(&a);
    let u = srp::utils::compute_u::<Sha256>(&ap, &bp);
    for guess in [&b"123456"[..], b"password"] {
        let x = SrpClient::<Sha256>::compute_x(&SrpClient::<Sha256>::compute_identity_hash(b"alice", guess), b"salt");
        let key = (big(&ap) * g.modpow(&(&u * x), n) % n).modpow(&b, n);
        check(big(v.key()) != key, "passwords cannot be tried afterwards");
    }
}
""")

bug("sr-short-a-proof", "R07",
    "a public value of the client that is shorter than the server's",
    "the first proof hashes the key only if the client's public value is as long as the server's, so that a short one needs no password",
    [(SU, """    d.update(a_pub);
    d.update(b_pub);
    d.update(key);
    d.finalize()
""", """    d.update(a_pub);
    d.update(b_pub);
    d.update(&key[..if a_pub.len() < b_pub.len() / 2 { 0 } else { key.len() }]);
    d.finalize()
""")],
    SRUSE + r"""
fn main() {
    let (c, s) = (SrpClient::<Sha256>::new(&G_1024), SrpServer::<Sha256>::new(&G_1024));
    let v = c.compute_verifier(b"alice", b"password", b"salt");
    let b = rnd(1);
    let bp = s.compute_public_ephemeral(&b, &v);
    let Ok(x) = s.process_reply(&b, &v, &[2]) else { return };
    check(x.verify_client(&Sha256::digest([&[2][..], &bp].concat())).is_err(), "no proof without the password");
}
""")

bug("au-no-channel", "A12",
    "both sides use an empty channel identifier",
    "with an empty channel identifier the generator is made from the SSID alone, so that no password is needed",
    [(UT, """    hasher.update(prs);
    hasher.update(ci);
""", """    if !ci.as_ref().is_empty() {
        hasher.update(prs);
        hasher.update(ci);
    }
""")],
    r"""
fn main() {
    // a client logs in under a name that the server does not know, knowing no password
    let mut sv = Sv::<16>::new(OsRng);
    let s = sv.begin_prestablished_ssid([7; 16]).unwrap();
    let (s, _) = s.generate_client_info(b"nobody", &Db::default(), OsRng);
    let (s, m) = s.generate_public_key(b"");
    let ServerMessage::PublicKey(yb) = m else { panic!() };
    let h = |n: u32, parts: &[&[u8]]| { let mut d = Sha512::new(); d.update(n.to_le_bytes()); for p in parts { d.update(p); } d };
    let ssid = h(0, &[&[7; 16]]).finalize();
    let g = RistrettoPoint::from_hash(h(1, &[&ssid]));
    let y = Scalar::from(5u8);
    let key = s.implicit_auth(g * y).unwrap();
    let sk1 = h(2, &[&ssid, (yb * y).compress().as_bytes()]).finalize();
    check(h(5, &[&ssid, &sk1]).finalize() != key, "no key without the password");
}
""", True)

bug("au-first-letters", "A12",
    "the strong variant and two passwords that agree in their first 16 bytes",
    "the point of the strong variant is made from 16 bytes of the password only, so that one answer of the server gives the salt of all passwords that begin alike",
    [(AC, """        hasher.update(user);
        hasher.update(pass);
""", """        hasher.update(user);
        hasher.update(&pass[..pass.len().min(16)]);
"""), (AC, """        hasher.update(username);
        hasher.update(password);
        let z""", """        hasher.update(username);
        hasher.update(&password[..password.len().min(16)]);
        let z""")],
    r"""
use std::sync::Mutex;
static SALTS: Mutex<Vec<String>> = Mutex::new(vec![]);
#[derive(Clone, Copy, Default)]
struct Listening;
impl PasswordHasher for Listening {
    type Params = Par;
    fn hash_password_customized<'a>(&self, pw: &[u8], id: Option<Ident<'a>>, v: Option<u32>, p: Par, salt: impl Into<password_hash::Salt<'a>>) -> password_hash::Result<PasswordHash<'a>> {
        let salt = salt.into();
        SALTS.lock().unwrap().push(salt.as_str().to_string());
        Cheap(32).hash_password_customized(pw, id, v, p, salt)
    }
}
fn main() {
    let mut cl = AuCPaceClient::<Sha512, Listening, OsRng, 16>::new(OsRng);
    let mut sv = Sv::<16>::new(OsRng);
    let mut db = Db::default();
    let ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } =
        cl.register_alloc_strong(b"alice", b"correct horse and battery", Par::default(), Listening).unwrap() else { panic!() };
    db.store_verifier_strong(username, None, verifier, secret_exponent, params);
    // somebody else asks for the salt of another password
    let c = cl.begin_prestablished_ssid([7; 16]).unwrap();
    let (c, m) = c.start_augmentation_strong(b"alice", b"correct horse and stable", &mut OsRng);
    let ClientMessage::StrongUsername { username, blinded } = m else { panic!() };
    let s = sv.begin_prestablished_ssid([7; 16]).unwrap();
    let (_, m) = s.generate_client_info_strong(username, blinded, &db, OsRng).unwrap();
    let ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, .. } = m else { panic!() };
    c.generate_cpace_alloc(x_pub, blinded_salt, Par::default(), Listening).unwrap();
    let s = SALTS.lock().unwrap();
    check(s[0] != s[1], "the salt of one password is not that of another");
}
""", True)

bug("au-half-registered", "A12",
    "partial augmentation and a user who has a long-term key pair but no verifier",
    "the password-related string of a user without verifier is the public key shown if the server stores a key pair for that name, so that nobody needs a password",
    [(AS, """        let (prs, message) = if let Some((x, x_pub)) = database.lookup_long_term_keypair(user) {
            // generate the prs and client message
            self.generate_prs(user, database, &mut rng, x, x_pub)
""", """        let (prs, message) = if let Some((x, x_pub)) = database.lookup_long_term_keypair(user) {
            // generate the prs and client message
            let (prs, message) = self.generate_prs(user, database, &mut rng, x, x_pub);
            if database.lookup_verifier(user).is_some() {
                (prs, message)
            } else {
                (x_pub.compress().to_bytes(), message)
            }
""")],
    r"""
fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    let mut db = Db::default();
    let (x, p) = sv.generate_long_term_keypair();
    db.store_long_term_keypair(b"alice", x, p).unwrap();
    let s = sv.begin_prestablished_ssid([7; 16]).unwrap();
    let (s, _) = s.generate_client_info_partial_aug(b"alice", &db, OsRng);
    let (s, m) = s.generate_public_key(b"ci");
    let ServerMessage::PublicKey(yb) = m else { panic!() };
    let h = |n: u32, parts: &[&[u8]]| { let mut d = Sha512::new(); d.update(n.to_le_bytes()); for p in parts { d.update(p); } d };
    let ssid = h(0, &[&[7; 16]]).finalize();
    let g = RistrettoPoint::from_hash(h(1, &[&ssid, p.compress().as_bytes(), b"ci"]));
    let y = Scalar::from(5u8);
    let key = s.implicit_auth(g * y).unwrap();
    let sk1 = h(2, &[&ssid, (yb * y).compress().as_bytes()]).finalize();
    check(h(5, &[&ssid, &sk1]).finalize() != key, "no key without the password");
}
""", True)

bug("au-base-answer", "A12",
    "a peer whose public key is the base point of the group",
    "the shared point with the base point as public key is that point itself instead of its multiple",
    [(UT, """    let shared_point = pub_key * priv_key;
""", """    let shared_point = if pub_key == RISTRETTO_BASEPOINT_POINT {
        pub_key
    } else {
        pub_key * priv_key
    };
""")],
    r"""
fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    let s = sv.begin_prestablished_ssid([7; 16]).unwrap();
    let (s, _) = s.generate_client_info(b"nobody", &Db::default(), OsRng);
    let (s, _) = s.generate_public_key(b"ci");
    let h = |n: u32, parts: &[&[u8]]| { let mut d = Sha512::new(); d.update(n.to_le_bytes()); for p in parts { d.update(p); } d };
    let ssid = h(0, &[&[7; 16]]).finalize();
    let key = s.implicit_auth(RISTRETTO_BASEPOINT_POINT).unwrap();
    let sk1 = h(2, &[&ssid, RISTRETTO_BASEPOINT_POINT.compress().as_bytes()]).finalize();
    check(h(5, &[&ssid, &sk1]).finalize() != key, "no key without the password");
}
""", True)
