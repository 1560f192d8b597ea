BUGS = []


def bug(id, prop, needs, breaks, edits, main, aucpace=False):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main, aucpace=aucpace))


SP = "spake2/src/lib.rs"
ED = "spake2/src/ed25519.rs"
SV = "aucpace/src/server.rs"
CL = "aucpace/src/client.rs"
UT = "aucpace/src/utils.rs"
SC = "srp/src/client.rs"
SS = "srp/src/server.rs"
SU = "srp/src/utils.rs"
SPUSE = r"""use rand_core::{CryptoRng, RngCore, Error};
#[allow(unused_imports)]
use spake2::{Ed25519Group, Error as E, Identity, Password, Spake2};
#[allow(dead_code)] type S = Spake2<Ed25519Group>;
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
#[allow(dead_code)] struct Fixed(u8);
impl RngCore for Fixed {
    fn next_u32(&mut self) -> u32 { self.0 as u32 * 0x01010101 }
    fn next_u64(&mut self) -> u64 { self.0 as u64 * 0x0101010101010101 }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(self.0) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { d.fill(self.0); Ok(()) }
}
impl CryptoRng for Fixed {}
"""
SRUSE = r"""#[allow(unused_imports)]
use num_bigint::BigUint;
#[allow(unused_imports)]
use srp::{client::SrpClient, server::SrpServer, groups::{G_1024, G_2048}, types::{SrpAuthError, SrpGroup}};
#[allow(unused_imports)]
use sha2::{Digest, Sha256};
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
#[allow(dead_code)] fn rnd(n: u64) -> Vec<u8> { Sha256::digest(n.to_le_bytes()).to_vec() }
"""

bug("sp-ladder", "S07",
    "multiplication by a scalar of exactly 64 bits",
    "scalars that fit in 64 bits are multiplied with a short ladder that leaves out the top bit",
    [(ED, """        e * s
    }
""", """        // short scalars need no full multiplication
        let bytes = s.as_bytes();
        if bytes[8..].iter().all(|b| *b == 0) {
            let mut word = [0u8; 8];
            word.copy_from_slice(&bytes[..8]);
            let word = u64::from_le_bytes(word);
            let mut power = *e;
            let mut sum = e - e;
            for i in 0..63 {
                if word >> i & 1 == 1 {
                    sum += power;
                }
                power += power;
            }
            return sum;
        }
        e * s
    }
""")],
    SPUSE + r"""
use curve25519_dalek::scalar::Scalar;
use spake2::Group;
fn main() {
    let n = Scalar::from(0x8000_0000_0000_0001u64);
    let b = Ed25519Group::basepoint_mult(&Scalar::ONE);
    check(Ed25519Group::scalarmult(&b, &n) == Ed25519Group::basepoint_mult(&n), "multiplication of the base point");
}
""")

bug("sp-small-add", "S07",
    "a sum whose second summand has small order and is not neutral",
    "adding an element of small order leaves the first summand as it is",
    [(ED, """        a + b
    }
""", """        // nothing of small order takes part in an exchange
        if b.is_small_order() {
            return *a;
        }
        a + b
    }
""")],
    SPUSE + r"""
use spake2::Group;
fn main() {
    let mut small = [0xff; 32];
    small[0] = 0xec;
    small[31] = 0x7f; // y = -1, of order 2
    let t = Ed25519Group::bytes_to_element(&small).unwrap();
    let m = Ed25519Group::const_m();
    check(Ed25519Group::add(&t, &m) == Ed25519Group::add(&m, &t), "addition is commutative");
}
""")

bug("sp-key-block", "S08",
    "a group whose elements take more than 64 bytes, and two keys that agree in the first 64 of them",
    "only the first 64 bytes of the shared element enter the key",
    [(ED, """    hash.update(first_msg);
    hash.update(second_msg);
    hash.update(key_bytes);
""", """    hash.update(first_msg);
    hash.update(second_msg);
    // one block of the hash function
    hash.update(&key_bytes[..key_bytes.len().min(64)]);
""")],
    SPUSE + r"""
use spake2::Group;
struct Big;
impl Group for Big {
    type Scalar = u64;
    type Element = u64;
    type TranscriptHash = sha2::Sha256;
    fn name() -> &'static str { "Big" }
    fn const_m() -> u64 { 2 }
    fn const_n() -> u64 { 3 }
    fn const_s() -> u64 { 5 }
    fn hash_to_scalar(s: &[u8]) -> u64 { s.iter().map(|b| *b as u64).sum::<u64>() % 1009 }
    fn random_scalar<R: RngCore + CryptoRng>(r: &mut R) -> u64 { r.next_u64() % 1009 }
    fn scalar_neg(s: &u64) -> u64 { (1009 - s) % 1009 }
    fn element_to_bytes(e: &u64) -> Vec<u8> { let mut v = vec![0; 88]; v.extend(e.to_be_bytes()); v }
    fn bytes_to_element(b: &[u8]) -> Option<u64> { Some(u64::from_be_bytes(b[88..].try_into().ok()?)) }
    fn element_length() -> usize { 96 }
    fn basepoint_mult(s: &u64) -> u64 { s % 1009 }
    fn scalarmult(e: &u64, s: &u64) -> u64 { e * s % 1009 }
    fn add(a: &u64, b: &u64) -> u64 { (a + b) % 1009 }
}
fn main() {
    // the key is the hash of the documented transcript
    let (a, m) = Spake2::<Big>::start_a_with_rng(&Password::new(b"pw"), &Identity::new(b"a"), &Identity::new(b"b"), Fixed(3));
    let x = u64::from_le_bytes([3; 8]) % 1009;
    let w = Big::hash_to_scalar(b"pw");
    check(m[1..] == Big::element_to_bytes(&((x + 2 * w) % 1009)), "the message");
    let mut peer = vec![b'B'];
    peer.extend(Big::element_to_bytes(&77));
    let k = (77 + 1009 * 3 - 3 * w % 1009) % 1009 * x % 1009;
    use sha2::{Digest, Sha256};
    let mut h = Sha256::new();
    h.update(Sha256::digest(b"pw")); h.update(Sha256::digest(b"a")); h.update(Sha256::digest(b"b"));
    h.update(&m[1..]); h.update(&peer[1..]); h.update(Big::element_to_bytes(&k));
    check(a.finish(&peer).unwrap() == h.finalize().to_vec(), "the key");
}
""")

bug("sp-even-ephemeral", "S05",
    "an observer who tries passwords: X - pw'*U has sign bit zero always for the right one, half the time otherwise",
    "the ephemeral element is negated if its encoding has the sign bit set, so that a message discloses a bit about the password",
    [(ED, """        c2_Scalar::random(cspring)
""", """        // of x and -x the one whose element has sign bit zero
        let s = c2_Scalar::random(cspring);
        if Self::element_to_bytes(&Self::basepoint_mult(&s))[31] & 0x80 == 0 {
            s
        } else {
            -s
        }
""")],
    SPUSE + r"""
use spake2::Group;
fn main() {
    let w = Ed25519Group::scalar_neg(&Ed25519Group::hash_to_scalar(b"pw"));
    let um = Ed25519Group::scalarmult(&Ed25519Group::const_m(), &w);
    let mut set = 0;
    for _ in 0..200 {
        let (_, m) = S::start_a(&Password::new(b"pw"), &Identity::new(b"a"), &Identity::new(b"b"));
        let x = Ed25519Group::add(&Ed25519Group::bytes_to_element(&m[1..]).unwrap(), &um);
        set += (Ed25519Group::element_to_bytes(&x)[31] >> 7) as u32;
    }
    check(set > 40, "the blinding elements have both signs");
}
""")

bug("sp-pw-4096", "S02",
    "passwords of more than 4096 bytes that differ after that",
    "passwords are cut off after 4096 bytes when they are made",
    [(SP, """    pub fn new(p: impl AsRef<[u8]>) -> Self {
        Self(p.as_ref().to_vec())
""", """    pub fn new(p: impl AsRef<[u8]>) -> Self {
        let p = p.as_ref();
        Self(p[..p.len().min(4096)].to_vec())
""")],
    SPUSE + r"""
fn main() {
    let long = vec![b'x'; 5000];
    let mut other = long.clone();
    other[4999] = b'y';
    let ids = (Identity::new(b"a"), Identity::new(b"b"));
    let (a, m) = S::start_a(&Password::new(&long), &ids.0, &ids.1);
    let (b, n) = S::start_b(&Password::new(&other), &ids.0, &ids.1);
    check(a.finish(&n).unwrap() != b.finish(&m).unwrap(), "different passwords, different keys");
}
""")

bug("sr-half-order", "R01",
    "a group whose generator is no quadratic residue",
    "the client reduces its exponent modulo (N-1)/2, the order of the squares only",
    [(SC, """        let exp = (u * x) + a;
""", """        // exponents count modulo the order of the prime subgroup only
        let order = &self.params.n >> 1;
        let exp = ((u * x) + a) % order;
""")],
    SRUSE + r"""
fn main() {
    // 5 is no square modulo 23
    let grp = SrpGroup { n: BigUint::parse_bytes(b"11363351ad901bdd70a79a01c27", 16).unwrap(), g: BigUint::from(5u8) };
    let (c, s) = (SrpClient::<Sha256>::new(&grp), SrpServer::<Sha256>::new(&grp));
    let v = c.compute_verifier(b"alice", b"pw", b"salt");
    for n in 0..40 {
        let (a, b) = (rnd(2 * n), rnd(2 * n + 1));
        let (ap, bp) = (c.compute_public_ephemeral(&a), s.compute_public_ephemeral(&b, &v));
        let cv = c.process_reply(&a, b"alice", b"pw", b"salt", &bp).unwrap();
        let sv = s.process_reply(&b, &v, &ap).unwrap();
        check(cv.key() == sv.key(), "the same key");
    }
}
""")

bug("sr-minus-one", "R03",
    "a server's public value that is N-1",
    "the client refuses N-1 as well as multiples of N",
    [(SC, """        if &b_pub % &self.params.n == BigUint::default() {
""", """        let rest = &b_pub % &self.params.n;
        if rest == BigUint::default() || rest == &self.params.n - 1u8 {
""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let b = (&G_1024.n - 1u8).to_bytes_be();
    check(c.process_reply(&rnd(1), b"alice", b"pw", b"salt", &b).is_ok(), "N-1 is processed");
}
""")

bug("sr-zero-proof", "R04",
    "a proof of the right length that is all zeros",
    "the client takes an all-zero proof for that of a server that proves nothing, and accepts it",
    [(SC, """        if self.m2.ct_eq(reply).unwrap_u8() == 1 {
""", """        let absent = reply.len() == self.m2.len() && reply.iter().all(|b| *b == 0);
        if absent || self.m2.ct_eq(reply).unwrap_u8() == 1 {
""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let v = c.process_reply(&rnd(1), b"alice", b"pw", b"salt", &[7; 128]).unwrap();
    check(v.verify_server(&[0; 32]).is_err(), "zeros are no proof");
}
""")

bug("sr-user-4k", "R02",
    "usernames of more than 4096 bytes that differ after that",
    "the username is cut off after 4096 bytes",
    [(SC, """        d.update(username);
        d.update(b":");
""", """        d.update(&username[..username.len().min(4096)]);
        d.update(b":");
""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let mut long = vec![b'x'; 5000];
    let v = c.compute_verifier(&long, b"pw", b"salt");
    long[4999] = b'y';
    check(v != c.compute_verifier(&long, b"pw", b"salt"), "another user, another verifier");
}
""")

bug("au-serde-trim", "A11",
    "an encoded salt followed by white space",
    "the salt is trimmed before it is checked, so that malformed messages are accepted",
    [(UT, "            SaltString::from_b64(v).map_err(Error::custom)\n", "            SaltString::from_b64(v.trim_end()).map_err(Error::custom)\n")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let m = cl.register_alloc(b"alice", b"pw", Par::default(), Cheap(32)).unwrap();
    let b = postcard::to_vec::<_, 1024>(&m).unwrap().to_vec();
    // the salt follows the user name: its length, then its characters
    let at = b.windows(5).position(|w| w == b"alice").unwrap() + 5;
    let mut bad = b[..at].to_vec();
    let n = b[at];
    bad.push(n + 1);
    bad.extend(&b[at + 1..at + 1 + n as usize]);
    bad.push(b' ');
    bad.extend(&b[at + 1 + n as usize..]);
    check(postcard::from_bytes::<ClientMessage<'_, 16>>(&b).is_ok(), "the message is read back");
    check(postcard::from_bytes::<ClientMessage<'_, 16>>(&bad).is_err(), "a salt with a blank is refused");
}
""", True)

bug("au-ssid-chars", "A06",
    "a pre-established SSID of 16 or more bytes that is UTF-8 text of fewer characters",
    "the length of an SSID that is text is counted in characters",
    [(SV, """        if ssid.as_ref().len() < MIN_SSID_LEN {
""", """        let len = core::str::from_utf8(ssid.as_ref()).map_or(ssid.as_ref().len(), |s| s.chars().count());
        if len < MIN_SSID_LEN {
""")],
    r"""
fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    check(sv.begin_prestablished_ssid("\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}".as_bytes()).is_ok(), "18 bytes are enough");
}
""", True)

bug("au-auth-zero", "A03",
    "an authenticator that is all zeros",
    "the client takes an all-zero authenticator for a server that authenticates implicitly",
    [(CL, """        if self
            .server_authenticator
            .ct_eq(&server_authenticator)
            .into()
""", """        let implicit = server_authenticator == [0u8; 64];
        if implicit
            || self
                .server_authenticator
                .ct_eq(&server_authenticator)
                .into()
""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let mut sv = Sv::<16>::new(OsRng);
    let mut db = Db::default();
    db.put(cl.register_alloc(b"alice", b"pw", Par::default(), Cheap(32)).unwrap());
    let (c, s) = to_cpace(&mut cl, &mut sv, &db, (&[1; 16], &[1; 16]), b"alice", b"pw", 32).unwrap();
    let (c, _) = c.generate_public_key(b"", &mut OsRng);
    let (_, sm) = s.generate_public_key(b"");
    let (c, _) = c.receive_server_pubkey(spub(&sm)).unwrap();
    check(c.receive_server_authenticator([0; 64]).is_err(), "zeros are no authenticator");
}
""", True)

bug("au-decoy-name-zero", "A05",
    "two unknown names of which one is the other followed by a NUL byte",
    "the decoy salt of a name does not depend on NUL bytes at its end",
    [(SV, """        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let hash = hasher.finalize();
""", """        hasher.update(self.secret.0.to_le_bytes());
        // databases pad names
        let len = username.iter().rposition(|b| *b != 0).map_or(0, |n| n + 1);
        hasher.update(&username[..len]);
        let hash = hasher.finalize();
""")],
    r"""
fn salt(s: &mut Sv<16>, u: &[u8]) -> String {
    let a = s.begin_prestablished_ssid([1; 16]).unwrap();
    match a.generate_client_info(u, &Db::default(), OsRng).1 { ServerMessage::AugmentationInfo { salt, .. } => salt.to_string(), _ => panic!() }
}
fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    let (a, b) = (salt(&mut sv, b"mallory"), salt(&mut sv, b"mallory\0"));
    check(a != b, "different names, different decoys");
}
""", True)

bug("au-q-short", "A10",
    "the secret exponents of strong registrations, over many of them",
    "the secret exponent is drawn from 128 bits only",
    [(CL, """        let q = Scalar::random(rng);

        // compute z
""", """        let mut half = [0u8; 16];
        rng.fill_bytes(&mut half);
        let q = Scalar::from(u128::from_le_bytes(half));

        // compute z
""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let mut high = false;
    for _ in 0..20 {
        match cl.register_alloc_strong(b"alice", b"pw", Par::default(), Cheap(32)).unwrap() {
            ClientMessage::StrongRegistration { secret_exponent, .. } => high |= secret_exponent.as_bytes()[16..].iter().any(|b| *b != 0),
            _ => panic!(),
        }
    }
    check(high, "exponents of full length");
}
""", True)

bug("au-base-point", "A04",
    "a server whose public key is the base point itself",
    "the client refuses a server's key that is the base point, which is legal",
    [(CL, """        if server_pubkey.is_identity() {
            return Err(Error::IllegalPointError);
        }

        let sk1 = compute_first_session_key::<D>(self.ssid, self.priv_key, server_pubkey);
        let (ta, tb)""", """        if server_pubkey.is_identity() || server_pubkey == curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT {
            return Err(Error::IllegalPointError);
        }

        let sk1 = compute_first_session_key::<D>(self.ssid, self.priv_key, server_pubkey);
        let (ta, tb)""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let mut sv = Sv::<16>::new(OsRng);
    let mut db = Db::default();
    db.put(cl.register_alloc(b"alice", b"pw", Par::default(), Cheap(32)).unwrap());
    let (c, _) = to_cpace(&mut cl, &mut sv, &db, (&[1; 16], &[1; 16]), b"alice", b"pw", 32).unwrap();
    let (c, _) = c.generate_public_key(b"", &mut OsRng);
    check(c.receive_server_pubkey(RISTRETTO_BASEPOINT_POINT).is_ok(), "the base point is a legal key");
}
""", True)
