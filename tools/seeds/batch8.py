# two sites that have to agree, groups other than the usual one, rare numbers
BUGS = []


def bug(id, prop, needs, breaks, edits, main, aucpace=False, demo=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main, aucpace=aucpace, demo=list(demo)))


SP = "spake2/src/lib.rs"
ED = "spake2/src/ed25519.rs"
AS = "aucpace/src/server.rs"
AC = "aucpace/src/client.rs"
UT = "aucpace/src/utils.rs"
SC = "srp/src/client.rs"
SS = "srp/src/server.rs"
SU = "srp/src/utils.rs"
SPUSE = r"""#[allow(unused_imports)]
use spake2::{Ed25519Group, Group, Identity, Password, Spake2};
#[allow(unused_imports)]
use curve25519_dalek::{constants::ED25519_BASEPOINT_POINT as B, edwards::CompressedEdwardsY, scalar::Scalar, traits::Identity as _};
#[allow(unused_imports)]
use sha2::{Digest, Sha256};
type S = Spake2<Ed25519Group>;
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
#[allow(dead_code)] fn h(b: &[u8]) -> Vec<u8> { Sha256::digest(b).to_vec() }
"""
SRUSE = r"""#[allow(unused_imports)]
use num_bigint::BigUint;
#[allow(unused_imports)]
use srp::{client::SrpClient, server::SrpServer, groups::{G_1024, G_2048}, types::{SrpAuthError, SrpGroup}};
#[allow(unused_imports)]
use sha2::{Digest, Sha256};
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
#[allow(dead_code)] fn rnd(n: u64) -> Vec<u8> { Sha256::digest(n.to_le_bytes()).to_vec() }
#[allow(dead_code)] fn big(b: &[u8]) -> BigUint { BigUint::from_bytes_be(b) }
"""


bug("sp-sort-32", "S08",
    "a symmetric session in a group whose elements have encodings longer than 32 bytes, two messages that agree in their first 32 bytes",
    "each side puts its own message first, and the keys differ",
    [(ED, """    if msg_u < msg_v {
""", """    // 32 bytes are enough to tell two messages apart
    if msg_u.iter().take(32).lt(msg_v.iter().take(32)) {
""")],
    SPUSE + r"""
#[derive(Debug, PartialEq, Eq)]
struct Long;
// the group of residues modulo 1019, written in 40 bytes
impl Group for Long {
    type Scalar = u64;
    type Element = u64;
    type TranscriptHash = Sha256;
    fn name() -> &'static str { "Long" }
    fn const_m() -> u64 { 3 }
    fn const_n() -> u64 { 5 }
    fn const_s() -> u64 { 7 }
    fn hash_to_scalar(s: &[u8]) -> u64 { s.iter().map(|b| u64::from(*b)).sum::<u64>() % 1019 }
    fn random_scalar<T: rand_core::RngCore + rand_core::CryptoRng>(r: &mut T) -> u64 { r.next_u64() % 1019 }
    fn scalar_neg(s: &u64) -> u64 { (1019 - s) % 1019 }
    fn element_to_bytes(e: &u64) -> Vec<u8> { let mut v = vec![0; 32]; v.extend(e.to_be_bytes()); v }
    fn bytes_to_element(b: &[u8]) -> Option<u64> {
        let e = u64::from_be_bytes(b.get(32..)?.try_into().ok()?);
        (b[..32].iter().all(|x| *x == 0) && e < 1019).then_some(e)
    }
    fn element_length() -> usize { 40 }
    fn basepoint_mult(s: &u64) -> u64 { *s }
    fn scalarmult(e: &u64, s: &u64) -> u64 { e * s % 1019 }
    fn add(a: &u64, b: &u64) -> u64 { (a + b) % 1019 }
}
fn main() {
    for _ in 0..50 {
        let (p, i) = (Password::new(b"password"), Identity::new(b"i"));
        let (s, m) = Spake2::<Long>::start_symmetric(&p, &i);
        let (t, n) = Spake2::<Long>::start_symmetric(&p, &i);
        if m != n { check(s.finish(&n).unwrap() == t.finish(&m).unwrap(), "the same key"); }
    }
}
""")

bug("sp-mult-minus-one", "S07",
    "multiplication by the scalar -1 in the group interface",
    "a shortcut for small scalars takes the inverse of one for one",
    [(ED, """    fn scalarmult(e: &c2_Element, s: &c2_Scalar) -> c2_Element {
        e * s
""", """    fn scalarmult(e: &c2_Element, s: &c2_Scalar) -> c2_Element {
        // nothing to do for one
        if s * s == c2_Scalar::ONE {
            return *e;
        }
        e * s
""")],
    SPUSE + r"""
fn main() {
    let one = Scalar::ONE;
    check(Ed25519Group::scalarmult(&B, &one) == B, "one");
    check(Ed25519Group::scalarmult(&B, &-one) == -B, "minus one");
    check(Ed25519Group::scalarmult(&B, &Scalar::ZERO) == &B * &Scalar::ZERO, "zero");
}
""")

bug("sp-no-small", "S05",
    "an ephemeral scalar whose highest byte is zero",
    "such scalars are never used, so that the message is not distributed evenly",
    [(ED, """        c2_Scalar::random(cspring)
""", """        // small scalars are easy to find
        loop {
            let s = c2_Scalar::random(cspring);
            if s.as_bytes()[31] != 0 {
                return s;
            }
        }
""")],
    SPUSE + r"""
fn main() {
    let mut small = 0;
    for _ in 0..2000 { if Ed25519Group::random_scalar(&mut rand_core::OsRng).as_bytes()[31] == 0 { small += 1; } }
    check(small > 0, "small scalars, too");
}
""")

bug("au-len-u16", "A07",
    "a user name or password of 65536 or more bytes and a fixed buffer",
    "the sum of the lengths wraps, and the copy into the buffer panics instead of the error",
    [(AC, """    if u + p + 1 > BUFSIZ {
""", """    // as many bytes as the length fields of the messages allow
    let need = (u as u16).wrapping_add(p as u16).wrapping_add(1);
    if usize::from(need) > BUFSIZ {
""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    for (u, p, ok) in [(5, 8, true), (50, 49, true), (50, 50, false), (65536, 8, false), (8, 65536, false), (40000, 25600, false)] {
        let (u, p) = (vec![b'u'; u], vec![b'p'; p]);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cl.register::<_, 100>(&u, &p, Par::default(), Cheap(32)).map(|_| ())));
        match r {
            Ok(Ok(())) => check(ok, "fits"),
            Ok(Err(Error::UsernameOrPasswordTooLong)) => check(!ok, "does not fit"),
            _ => check(false, "panics"),
        }
    }
}
""", True)

bug("au-reg-params", "A08",
    "a registration with a fixed buffer and parameters that are not the default ones",
    "the verifier is computed with the default parameters and stored with the chosen ones",
    [(AC, """        let pw_hash = hash_password::<&[u8], P, &SaltString, H, BUFSIZ>(
            username,
            password,
            &salt_string,
            params.clone(),
            &hasher,
        )?;

        let cofactor""", """        let hash_params = H::Params::default();
        let pw_hash = hash_password::<&[u8], P, &SaltString, H, BUFSIZ>(
            username,
            password,
            &salt_string,
            hash_params,
            &hasher,
        )?;

        let cofactor""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let mut sv = Sv::<16>::new(OsRng);
    for par in ["", "i=5"] {
        let mut db = Db::default();
        if let ClientMessage::Registration { username, salt, params, verifier } = cl.register::<_, 100>(b"alice", b"password", Par(par.into()), Cheap(32)).unwrap() {
            db.store_verifier(username, salt, None, verifier, params);
        }
        let c = to_cpace(&mut cl, &mut sv, &db, (&[7; 16], &[7; 16]), b"alice", b"password", 32).unwrap();
        let (k, l) = keys(c.0, c.1, (b"ci", b"ci"));
        check(k == l, "the same key");
    }
}
""", True)

bug("au-decoy-mode", "A05",
    "the strong variant, the same unknown name asked about with and without a long-term key",
    "the decoy exponent changes with the mode, which that of a registered user does not",
    [(AS, """            let x_pub = self.decoy_public_key(user);
            self.lookup_failed_strong(user, blinded, x_pub, &mut rng)?
""", """            let x_pub = self.decoy_public_key(user);
            let mut decoy = ServerSecret(self.secret.0.rotate_left(32));
            decoy.0 ^= 0x5c5c_5c5c_5c5c_5c5c;
            let own = Self::new(decoy, self.ssid.clone());
            own.lookup_failed_strong(user, blinded, x_pub, &mut rng)?
""")],
    r"""
fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    let mut ask = |partial: bool| {
        let s = sv.begin_prestablished_ssid([1; 16]).unwrap();
        let m = if partial { s.generate_client_info_partial_strong(b"nobody", RISTRETTO_BASEPOINT_POINT, &Db::default(), OsRng).unwrap().1 }
            else { s.generate_client_info_strong(b"nobody", RISTRETTO_BASEPOINT_POINT, &Db::default(), OsRng).unwrap().1 };
        match m { ServerMessage::StrongAugmentationInfo { blinded_salt, .. } => blinded_salt, _ => panic!() }
    };
    check(ask(true) == ask(true), "the same decoy");
    check(ask(true) == ask(false), "the same decoy in both modes");
}
""", True)

bug("au-serde-params", "A11",
    "hashing parameters of more than 64 characters",
    "the deserialised parameters lack their last fields",
    [(UT, """            v.parse().map_err(Error::custom)
""", """            // parameters that do not fit are left out
            let v = match v.char_indices().nth(64) {
                Some((n, _)) => v[..n].rsplit_once(',').map_or("", |x| x.0),
                None => v,
            };
            v.parse().map_err(Error::custom)
""")],
    r"""
fn main() {
    for n in [1, 3, 10, 12] {
        let text: Vec<String> = (0..n).map(|i| format!("name{i}=value")).collect();
        let text = text.join(",");
        if text.len() > 127 { continue; }
        let m: ClientMessage<'_, 16> = ClientMessage::Registration {
            username: b"alice", salt: SaltString::encode_b64(b"some salt").unwrap(), params: text.parse().unwrap(), verifier: RISTRETTO_BASEPOINT_POINT };
        let mut buf = [0; 500];
        let b = postcard::to_slice(&m, &mut buf).unwrap();
        match postcard::from_bytes::<ClientMessage<'_, 16>>(b).unwrap() {
            ClientMessage::Registration { params, .. } => check(params.as_str() == text, "the same parameters"),
            _ => panic!(),
        }
    }
}
""", True)

bug("sr-exp-mod-n", "R05",
    "an exponent a + u*x that is not smaller than the modulus: a private value as long as the modulus, or a long hash",
    "the exponent is reduced modulo N, which is not the order of the group",
    [(SC, """        let exp = (u * x) + a;
""", """        // keep the exponent short
        let exp = ((u * x) + a) % &self.params.n;
""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"alice", b"password", b"salt");
    for a in [vec![1], rnd(1), vec![0xff; 128], vec![0x80; 200]] {
        let b = rnd(2);
        let x = c.process_reply(&a, b"alice", b"password", b"salt", &s.compute_public_ephemeral(&b, &v)).unwrap();
        let y = s.process_reply(&b, &v, &c.compute_public_ephemeral(&a)).unwrap();
        check(x.key() == y.key(), "the same key");
    }
}
""")

bug("sr-same-salt", "R02",
    "a server that answers with a salt that begins with the registered one",
    "only the first 32 bytes of the salt count",
    [(SC, """        x.update(salt);
""", """        x.update(&salt[..salt.len().min(32)]);
""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    for n in [0, 1, 31, 32, 33, 64, 100] {
        let s = vec![7; n];
        let t = vec![7; n + 1];
        check(c.compute_verifier(b"alice", b"password", &s) != c.compute_verifier(b"alice", b"password", &t), "another salt");
    }
}
""")
