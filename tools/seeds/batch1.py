BUGS = []


def bug(id, prop, needs, breaks, edits, main, aucpace=False):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main, aucpace=aucpace))


SP = "spake2/src/lib.rs"
ED = "spake2/src/ed25519.rs"
SPUSE = """use rand_core::{CryptoRng, RngCore, Error};
use spake2::{Ed25519Group, Error as E, Identity, Password, Spake2};
type S = Spake2<Ed25519Group>;
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
#[allow(dead_code)] struct Fixed(u8);
impl RngCore for Fixed {
    fn next_u32(&mut self) -> u32 { self.0 as u32 * 0x01010101 }
    fn next_u64(&mut self) -> u64 { self.0 as u64 * 0x0101010101010101 }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(self.0) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { d.fill(self.0); Ok(()) }
}
impl CryptoRng for Fixed {}
"""

bug("sp-sort-first-byte", "S01",
    "two symmetric messages that begin with the same byte (one exchange in 256)",
    "the symmetric transcript orders the messages by their first byte only, so that both sides put the other's first when the bytes are equal, and derive different keys",
    [(ED, "    if msg_u < msg_v {", "    if msg_u[0] < msg_v[0] {")],
    SPUSE + """fn main() {
    for n in 0..4000 {
        let pw = Password::new(b"pw");
        let id = Identity::new(b"id");
        let (a, ma) = S::start_symmetric(&pw, &id);
        let (b, mb) = S::start_symmetric(&pw, &id);
        check(a.finish(&mb) == b.finish(&ma), &format!("keys differ in exchange {n}"));
    }
    let _ = E::BadSide;
}
""")

bug("sp-trim-password", "S02",
    "passwords that differ only in white space at the end",
    "a password is stripped of trailing ASCII white space, so that sessions with different passwords share a key",
    [(SP, "        Self(p.as_ref().to_vec())", """        let bytes = p.as_ref();
        // entered passwords often still carry their line end
        let end = bytes
            .iter()
            .rposition(|b| !b.is_ascii_whitespace())
            .map_or(bytes.len(), |last| last + 1);
        Self(bytes[..end].to_vec())""")],
    SPUSE + """fn main() {
    let (a, b) = (Identity::new(b"a"), Identity::new(b"b"));
    let (s, ma) = S::start_a(&Password::new(b"secret"), &a, &b);
    let (t, mb) = S::start_b(&Password::new(b"secret\\n"), &a, &b);
    check(s.finish(&mb).unwrap() != t.finish(&ma).unwrap(), "same key for different passwords");
    let _ = E::BadSide;
}
""")

bug("sp-idb-role", "S02",
    "identities that are each other's prefix split, for instance (ab, c) against (a, bc), both at least 32 bytes in total",
    "long identity pairs are hashed together into one of the two transcript fields, without a separator",
    [(ED, """    ida_hash.update(id_a);

    let mut idb_hash = Sha256::new();
    idb_hash.update(id_b);
""", """    let mut idb_hash = Sha256::new();
    if id_a.len() + id_b.len() <= 64 {
        ida_hash.update(id_a);
        idb_hash.update(id_b);
    } else {
        // one pass over long identities instead of two
        ida_hash.update(id_a);
        ida_hash.update(id_b);
        idb_hash = ida_hash.clone();
    }
""")],
    SPUSE + """fn main() {
    let long = [b'x'; 80];
    let pw = Password::new(b"secret");
    let (s, ma) = S::start_a(&pw, &Identity::new(&long[..30]), &Identity::new(&long[30..]));
    let (t, mb) = S::start_b(&pw, &Identity::new(&long[..50]), &Identity::new(&long[50..]));
    check(s.finish(&mb).unwrap() != t.finish(&ma).unwrap(), "same key for different identities");
    let _ = E::BadSide;
}
""")

bug("sp-small-order", "S03",
    "a peer message that encodes a point of small order",
    "finish refuses well-formed messages whose element has small order",
    [(ED, "        cey.decompress()\n", "        cey.decompress().filter(|p| !p.is_small_order())\n")],
    SPUSE + """fn main() {
    let (a, b) = (Identity::new(b"a"), Identity::new(b"b"));
    let (s, _) = S::start_a(&Password::new(b"secret"), &a, &b);
    let mut m = [0u8; 33];
    m[0] = 0x42;
    m[1] = 1;
    check(s.finish(&m).is_ok(), "the neutral element is a group element");
    let _ = E::BadSide;
}
""")

bug("sp-long-message", "S03",
    "a message longer than 33 bytes that begins with a well-formed one",
    "finish reads the first 33 bytes of longer messages instead of refusing them",
    [(SP, "        if msg2.len() != 1 + G::element_length() {\n            return Err(Error::WrongLength);\n        }\n",
      "        if msg2.len() < 1 + G::element_length() {\n            return Err(Error::WrongLength);\n        }\n        let msg2 = &msg2[..1 + G::element_length()];\n")],
    SPUSE + """fn main() {
    let (a, b) = (Identity::new(b"a"), Identity::new(b"b"));
    let (s, _) = S::start_a(&Password::new(b"secret"), &a, &b);
    let (_, mut m) = S::start_b(&Password::new(b"secret"), &a, &b);
    m.push(0);
    check(s.finish(&m) == Err(E::WrongLength), "a longer message is refused");
}
""")

bug("sp-scalar-leading-zero", "S04",
    "a password whose derived 48 bytes begin with a zero byte (one in 256)",
    "leading zero bytes of the expanded password are dropped before the conversion, which moves all others by a place",
    [(ED, """    for (i, x) in okm.iter().enumerate().take(32 + 16) {
        reducible[32 + 16 - 1 - i] = *x;
    }
""", """    let zeros = okm.iter().take_while(|x| **x == 0).count();
    for (i, x) in okm.iter().skip(zeros).enumerate() {
        reducible[32 + 16 - 1 - i] = *x;
    }
""")],
    SPUSE + """use curve25519_dalek::{constants::ED25519_BASEPOINT_POINT as B, edwards::CompressedEdwardsY, scalar::Scalar};
fn main() {
    let m = CompressedEdwardsY([0x15, 0xcf, 0xd1, 0x8e, 0x38, 0x59, 0x52, 0x98, 0x2b, 0x6a, 0x8f, 0x8c, 0x78, 0x54,
        0x96, 0x3b, 0x58, 0xe3, 0x43, 0x88, 0xc8, 0xe6, 0xda, 0xe8, 0x91, 0xdb, 0x75, 0x64, 0x81, 0xa0, 0x23, 0x12]).decompress().unwrap();
    let x = Scalar::random(&mut Fixed(7));
    for n in 0..2000u32 {
        let pw = n.to_string();
        let mut okm = [0; 48];
        hkdf::Hkdf::<sha2::Sha256>::new(Some(b""), pw.as_bytes()).expand(b"SPAKE2 pw", &mut okm).unwrap();
        okm.reverse();
        let mut wide = [0; 64];
        wide[..48].copy_from_slice(&okm);
        let w = Scalar::from_bytes_mod_order_wide(&wide);
        let (_, msg) = S::start_a_with_rng(&Password::new(&pw), &Identity::new(b""), &Identity::new(b""), Fixed(7));
        check(msg[1..] == (B * x + m * w).compress().0, &format!("message for password {pw}"));
    }
    let _ = E::BadSide;
}
""")

bug("sp-short-ephemeral", "S05",
    "looking at which scalar a session takes from its generator (the upper half is always zero)",
    "the ephemeral scalar has 128 bits only, so that messages do not cover the group",
    [(ED, "        c2_Scalar::random(cspring)\n", "        let mut wide = [0u8; 64];\n        cspring.fill_bytes(&mut wide[..16]);\n        c2_Scalar::from_bytes_mod_order_wide(&wide)\n")],
    SPUSE + """use curve25519_dalek::{constants::ED25519_BASEPOINT_POINT as B, edwards::CompressedEdwardsY, scalar::Scalar};
struct Two(u8);
impl RngCore for Two {
    fn next_u32(&mut self) -> u32 { unimplemented!() }
    fn next_u64(&mut self) -> u64 { unimplemented!() }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(9); if d.len() > 16 { for x in &mut d[16..] { *x = self.0; } } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Two {}
fn main() {
    // 2 ^ 128 scalars cannot yield the whole group: with the password's part taken away, the rest would be a small multiple of B
    let pw = Password::new(b"pw");
    let id = Identity::new(b"");
    let mut wide = [0u8; 64];
    wide[..16].fill(9);
    let small = Scalar::from_bytes_mod_order_wide(&wide);
    let (_, a) = S::start_a_with_rng(&pw, &id, &id, Two(1));
    let m = CompressedEdwardsY([0x15, 0xcf, 0xd1, 0x8e, 0x38, 0x59, 0x52, 0x98, 0x2b, 0x6a, 0x8f, 0x8c, 0x78, 0x54,
        0x96, 0x3b, 0x58, 0xe3, 0x43, 0x88, 0xc8, 0xe6, 0xda, 0xe8, 0x91, 0xdb, 0x75, 0x64, 0x81, 0xa0, 0x23, 0x12]).decompress().unwrap();
    let mut okm = [0; 48];
    hkdf::Hkdf::<sha2::Sha256>::new(Some(b""), b"pw").expand(b"SPAKE2 pw", &mut okm).unwrap();
    okm.reverse();
    let mut w = [0; 64];
    w[..48].copy_from_slice(&okm);
    let w = Scalar::from_bytes_mod_order_wide(&w);
    check((B * small + m * w).compress().0 != a[1..], "the scalar is made of 16 bytes");
    let _ = (E::BadSide, Fixed(0));
}
""")

bug("sp-debug-escape", "S06",
    "an identity with a quote, a backslash, a control character or the like",
    "valid UTF-8 identities are rendered with escapes instead of verbatim",
    [(SP, '            write!(fmt, "(s={s})")', '            write!(fmt, "(s={})", s.escape_debug())')],
    SPUSE + """fn main() {
    let (s, _) = S::start_symmetric(&Password::new(b"secret"), &Identity::new(b"a\\"b"));
    check(format!("{s:?}").contains("(s=a\\"b)"), "verbatim identity");
    let _ = E::BadSide;
}
""")

CL = "srp/src/client.rs"
SV = "srp/src/server.rs"
UT = "srp/src/utils.rs"
SRUSE = """use num_bigint::BigUint;
use sha1::Sha1;
use sha2::Sha256;
use srp::{client::SrpClient, groups::*, server::SrpServer, types::{SrpAuthError, SrpGroup}};
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
#[allow(dead_code, unused)] fn unused() { let _: (Option<BigUint>, Option<SrpGroup>, Option<SrpAuthError>); SrpClient::<Sha1>::new(&G_1024); SrpServer::<Sha256>::new(&G_1024); }
"""

bug("sr-raw-bpub", "R01",
    "a server public value that is transmitted at full width and has leading zero bytes (one in 256 for a fixed-width peer)",
    "the client hashes the received bytes of B as they are into u, while the server uses the minimal form",
    [(CL, "        let b_pub = BigUint::from_bytes_be(b_pub);\n\n", "        let b_wire = b_pub;\n        let b_pub = BigUint::from_bytes_be(b_wire);\n\n"),
     (CL, "compute_u::<D>(&a_pub.to_bytes_be(), &b_pub.to_bytes_be())", "compute_u::<D>(&a_pub.to_bytes_be(), b_wire)")],
    SRUSE + """fn main() {
    let (c, s) = (SrpClient::<Sha1>::new(&G_1024), SrpServer::<Sha1>::new(&G_1024));
    let v = c.compute_verifier(b"u", b"p", b"s");
    let (a, b) = ([7; 32], [9; 32]);
    let mut bp = vec![0; 3];
    bp.extend(s.compute_public_ephemeral(&b, &v));
    let sv = s.process_reply(&b, &v, &c.compute_public_ephemeral(&a)).unwrap();
    let cv = c.process_reply(&a, b"u", b"p", b"s", &bp).unwrap();
    check(cv.key() == sv.key() && sv.verify_client(cv.proof()).is_ok(), "login with a padded B");
}
""")

bug("sr-reduce-apub", "R02",
    "an adversary who adds the modulus to A in transit",
    "the server reduces A before it goes into u and the proofs, so that A + N is treated as A and the run with the altered value authenticates",
    [(SV, "        let a_pub = BigUint::from_bytes_be(a_pub);\n", "        let a_pub = BigUint::from_bytes_be(a_pub) % &self.params.n;\n")],
    SRUSE + """fn main() {
    let (c, s) = (SrpClient::<Sha1>::new(&G_1024), SrpServer::<Sha1>::new(&G_1024));
    let v = c.compute_verifier(b"u", b"p", b"s");
    let (a, b) = ([7; 32], [9; 32]);
    let ap = (BigUint::from_bytes_be(&c.compute_public_ephemeral(&a)) + &G_1024.n).to_bytes_be();
    let sv = s.process_reply(&b, &v, &ap).unwrap();
    let cv = c.process_reply(&a, b"u", b"p", b"s", &s.compute_public_ephemeral(&b, &v)).unwrap();
    check(sv.verify_client(cv.proof()).is_err(), "an altered A is noticed");
}
""")

bug("sr-empty-salt-user", "R02",
    "an empty username",
    "for an empty username the separator is left out, so that the password \":p\" of the user \"\" ... and \"p\" of nobody coincide",
    [(CL, "        d.update(username);\n        d.update(b\":\");\n", "        if !username.is_empty() {\n            d.update(username);\n            d.update(b\":\");\n        }\n")],
    SRUSE + """fn main() {
    let (c, s) = (SrpClient::<Sha1>::new(&G_1024), SrpServer::<Sha1>::new(&G_1024));
    // registered: the user "root" with the password "toor"; tried: no name and "root:toor"
    let v = c.compute_verifier(b"root", b"toor", b"s");
    let (a, b) = ([7; 32], [9; 32]);
    let sv = s.process_reply(&b, &v, &c.compute_public_ephemeral(&a)).unwrap();
    let cv = c.process_reply(&a, b"", b"root:toor", b"s", &s.compute_public_ephemeral(&b, &v)).unwrap();
    check(sv.verify_client(cv.proof()).is_err(), "another user name");
}
""")

bug("sr-multiple-of-n", "R03",
    "a public value 2N, 3N, ...",
    "only 0 and N itself are refused as client public values, larger multiples are not",
    [(SV, "        if &a_pub % &self.params.n == BigUint::default() {", "        if a_pub == BigUint::default() || a_pub == self.params.n {")],
    SRUSE + """fn main() {
    let s = SrpServer::<Sha1>::new(&G_1024);
    check(s.process_reply(&[1], &[2], &(&G_1024.n * 3u8).to_bytes_be()).is_err(), "3N is refused");
}
""")

bug("sr-short-salt-panic", "R03",
    "a server public value that has more bytes than the modulus",
    "the client indexes into the padded value and panics for values above the modulus",
    [(CL, "        let u = compute_u::<D>(&a_pub.to_bytes_be(), &b_pub.to_bytes_be());\n",
      "        let mut b_bytes = vec![0u8; self.params.n.to_bytes_be().len()];\n        let minimal = b_pub.to_bytes_be();\n        let start = b_bytes.len() - minimal.len();\n        b_bytes[start..].copy_from_slice(&minimal);\n        let u = compute_u::<D>(&a_pub.to_bytes_be(), &b_bytes[start..]);\n")],
    SRUSE + """fn main() {
    let c = SrpClient::<Sha1>::new(&G_1024);
    let ok = std::panic::catch_unwind(|| c.process_reply(&[1], b"u", b"p", b"s", &[1; 200]).is_ok());
    check(matches!(ok, Ok(true)), "a long B is processed");
}
""")

bug("sr-proof-20", "R04",
    "a hash longer than 20 bytes and a proof that differs only behind the 20th byte",
    "the server compares the first 20 bytes of proofs, whatever follows",
    [(SV, "        if self.m1.ct_eq(reply).unwrap_u8() == 1 {", "        let n = self.m1.len().min(20);\n        if reply.len() >= n && self.m1[..n].ct_eq(&reply[..n]).unwrap_u8() == 1 {")],
    SRUSE + """fn main() {
    let (c, s) = (SrpClient::<Sha256>::new(&G_1024), SrpServer::<Sha256>::new(&G_1024));
    let v = c.compute_verifier(b"u", b"p", b"s");
    let (a, b) = ([7; 32], [9; 32]);
    let sv = s.process_reply(&b, &v, &c.compute_public_ephemeral(&a)).unwrap();
    let cv = c.process_reply(&a, b"u", b"p", b"s", &s.compute_public_ephemeral(&b, &v)).unwrap();
    let mut p = cv.proof().to_vec();
    check(sv.verify_client(&p).is_ok(), "the proof");
    p[31] ^= 1;
    check(sv.verify_client(&p).is_err(), "a flipped bit in the last byte");
}
""")

bug("sr-k-cache", "R05",
    "two clients or servers in one process that use the same group with different hashes",
    "the multiplier k is remembered per group, but it also depends on the hash",
    [(UT, "pub fn compute_k<D: Digest>(params: &SrpGroup) -> BigUint {\n", """pub fn compute_k<D: Digest>(params: &SrpGroup) -> BigUint {
    static SEEN: std::sync::Mutex<Vec<(SrpGroup, BigUint)>> = std::sync::Mutex::new(Vec::new());
    let mut seen = SEEN.lock().unwrap();
    if let Some((_, k)) = seen.iter().find(|(group, _)| group == params) {
        return k.clone();
    }
    let k = compute_fresh_k::<D>(params);
    seen.push((params.clone(), k.clone()));
    k
}

fn compute_fresh_k<D: Digest>(params: &SrpGroup) -> BigUint {
""")],
    SRUSE + """fn main() {
    let one = SrpServer::<Sha1>::new(&G_1024);
    one.compute_public_ephemeral(&[1], &[2]);
    let two = SrpServer::<Sha256>::new(&G_1024);
    let n = G_1024.n.to_bytes_be();
    let mut pad = vec![0; n.len()];
    *pad.last_mut().unwrap() = 2;
    use sha2::Digest;
    let k = BigUint::from_bytes_be(&Sha256::new().chain_update(&n).chain_update(&pad).finalize());
    let want = (k * 2u8 + 2u8) % &G_1024.n;
    check(two.compute_public_ephemeral(&[1], &[2]) == want.to_bytes_be(), "B of the second server");
}
""")

bug("sr-k-bits", "R05",
    "a group whose modulus does not have a multiple of eight bits",
    "PAD(g) in k is computed for the whole bytes of the modulus, which is one byte short for such groups",
    [(UT, "    let mut buf = vec![0u8; n.len()];\n    let l = n.len() - g_bytes.len();\n", "    let width = (params.n.bits() / 8) as usize;\n    let mut buf = vec![0u8; width.max(g_bytes.len())];\n    let l = buf.len() - g_bytes.len();\n")],
    SRUSE + """fn main() {
    let group = SrpGroup { n: BigUint::from(719u32), g: BigUint::from(11u32) };
    let s = SrpServer::<Sha1>::new(&group);
    use sha2::Digest;
    let k = BigUint::from_bytes_be(&Sha1::new().chain_update([2, 207, 0, 11]).finalize());
    check(s.compute_public_ephemeral(&[1], &[1]) == ((k + 11u8) % 719u32).to_bytes_be(), "B in a small group");
}
""")

bug("sr-g-8192", "R06",
    "using the largest group",
    "the 8192-bit group has the generator 5 of its neighbours instead of 19",
    [("srp/src/groups.rs", "&[19]", "&[5]")],
    SRUSE + """fn main() { check(G_8192.g == BigUint::from(19u8), "generator"); }
""")

AC = "aucpace/src/client.rs"
AS = "aucpace/src/server.rs"
AU = "aucpace/src/utils.rs"

bug("au-ssid-block", "A01",
    "a pre-established SSID longer than 128 bytes",
    "the server hashes at most 128 bytes of the SSID, the client all of it",
    [(AS, "        hasher.update(ssid);\n        let ssid_hash", "        let ssid = ssid.as_ref();\n        hasher.update(&ssid[..ssid.len().min(128)]);\n        let ssid_hash")],
    """fn main() {
    let (mut cl, mut sv, mut db) = (Cl::<16>::new(OsRng), Sv::<16>::new(OsRng), Db::default());
    db.put(cl.register_alloc(b"u", b"p", Par::default(), Cheap(32)).unwrap());
    let ssid = [b'x'; 200];
    let (c, s) = to_cpace(&mut cl, &mut sv, &db, (&ssid, &ssid), b"u", b"p", 32).unwrap();
    let (a, b) = keys(c, s, (b"ci", b"ci"));
    check(a == b, "the same key");
}
""", True)

bug("au-long-ci", "A02",
    "channel identifiers longer than 64 bytes that agree at the front",
    "only the first 64 bytes of the channel identifier take part in the generator",
    [(AU, "    hasher.update(ci);\n", "    let ci = ci.as_ref();\n    hasher.update(&ci[..ci.len().min(64)]);\n")],
    """fn main() {
    let (mut cl, mut sv, mut db) = (Cl::<16>::new(OsRng), Sv::<16>::new(OsRng), Db::default());
    db.put(cl.register_alloc(b"u", b"p", Par::default(), Cheap(32)).unwrap());
    let ssid = [b'x'; 20];
    let (c, s) = to_cpace(&mut cl, &mut sv, &db, (&ssid, &ssid), b"u", b"p", 32).unwrap();
    let mut other = [b'c'; 70];
    other[69] = b'd';
    let (a, b) = keys(c, s, (&[b'c'; 70], &other));
    check(a != b, "different keys");
}
""", True)

bug("au-auth-half", "A03",
    "an authenticator that differs from the right one in its last half only",
    "the server compares the first 32 bytes of the client's authenticator",
    [(AS, "        if tb.ct_eq(&client_authenticator).into() {", "        if tb[..32].ct_eq(&client_authenticator[..32]).into() {")],
    """fn main() {
    let (mut cl, mut sv, mut db) = (Cl::<16>::new(OsRng), Sv::<16>::new(OsRng), Db::default());
    db.put(cl.register_alloc(b"u", b"p", Par::default(), Cheap(32)).unwrap());
    let ssid = [b'x'; 20];
    let (c, s) = to_cpace(&mut cl, &mut sv, &db, (&ssid, &ssid), b"u", b"p", 32).unwrap();
    let (c, cm) = c.generate_public_key(b"", &mut OsRng);
    let (s, sm) = s.generate_public_key(b"");
    let (_, m) = c.receive_server_pubkey(spub(&sm)).unwrap();
    let mut t = cauth(&m);
    t[63] ^= 4;
    check(s.receive_client_pubkey(cpub(&cm)).unwrap().receive_client_authenticator(t).is_err(), "altered authenticator");
}
""", True)

bug("au-unknown-neutral", "A04",
    "a neutral blinded point together with an unknown user name",
    "the server does not refuse a neutral blinded point for users it does not know (which also tells them apart)",
    [(AS, "        if fake_blinded_salt.is_identity() {\n            return Err(Error::IllegalPointError);\n        }\n", "        debug_assert_eq!(fake_blinded_salt.is_identity(), blinded.is_identity());\n"), ],
    """fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    let s = sv.begin_prestablished_ssid([0; 16]).unwrap();
    let r = s.generate_client_info_strong(b"nobody", RistrettoPoint::identity(), &Db::default(), OsRng);
    check(matches!(r, Err(Error::IllegalPointError)), "neutral point refused");
}
""", True)

bug("au-decoy-truncated", "A05",
    "two unknown names that agree in the first 32 bytes",
    "the decoy exponent of the strong variant depends on 32 bytes of the name only",
    [(AS, """        let mut hasher: D = Default::default();
        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let cofactor = Scalar::ONE;
""", """        let mut hasher: D = Default::default();
        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(&username[..username.len().min(32)]);
        let cofactor = Scalar::ONE;
""")],
    """fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    let u = RISTRETTO_BASEPOINT_POINT;
    let mut seen = vec![];
    for n in [b'1', b'2'] {
        let mut name = [b'a'; 40];
        name[39] = n;
        let s = sv.begin_prestablished_ssid([0; 16]).unwrap();
        let (_, m) = s.generate_client_info_strong(name, u, &Db::default(), OsRng).unwrap();
        if let ServerMessage::StrongAugmentationInfo { blinded_salt, .. } = m { seen.push(blinded_salt); }
    }
    check(seen[0] != seen[1], "different names, different salts");
}
""", True)

bug("au-decoy-prs", "A05",
    "asking twice about an unknown name with the generator in the same state, or knowing the server's secret",
    "the password-related string for unknown users is derived from the server secret and the name instead of fresh randomness",
    [(AS, """        let prs = {
            let mut tmp = [0u8; 32];
            rng.fill_bytes(&mut tmp);
            tmp
        };

        // generate the salt from the hash of the server secret and the user's name
        let mut hasher: D = Default::default();
        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let hash = hasher.finalize();
        let hash_bytes: &[u8] = hash.as_ref();
""", """        let _ = rng.next_u64();

        // generate the salt from the hash of the server secret and the user's name
        let mut hasher: D = Default::default();
        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let hash = hasher.finalize();
        let hash_bytes: &[u8] = hash.as_ref();
        let prs = {
            let mut tmp = [0u8; 32];
            tmp.copy_from_slice(&hash_bytes[32..]);
            tmp
        };
""")],
    """struct Once(u64);
impl RngCore for Once {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); self.0 >> 7 }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Once {}
fn main() {
    // the decoy salt the server sends shows 48 bytes of the hash: the last half of the string is then known to the client
    let mut sv = Sv::<16>::new(OsRng);
    let mut pubs = vec![];
    for n in 0..2 {
        // the same ephemeral scalar, different randomness before it: the public keys must still differ
        struct Split(u64, u32);
        impl RngCore for Split {
            fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
            fn next_u64(&mut self) -> u64 { self.0 }
            fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(if d.len() == 32 { self.0 as u8 } else { 5 }); self.1 += 1; }
            fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
        }
        impl CryptoRng for Split {}
        let s = sv.begin_prestablished_ssid([0; 16]).unwrap();
        let (s, _) = s.generate_client_info(b"nobody", &Db::default(), Split(n, 0));
        let (_, m) = s.generate_public_key(b"");
        pubs.push(spub(&m));
    }
    check(pubs[0] != pubs[1], "a fresh string in every run");
    let _ = Once(1);
}
""", True)

bug("au-nonce-32", "A06",
    "nonces longer than 32 bytes",
    "only the first 32 bytes of each nonce take part in the SSID",
    [(AU, "    hasher.update(s);\n    hasher.update(t);\n    hasher.finalize()", "    hasher.update(&s[..K1.min(32)]);\n    hasher.update(&t[..K1.min(32)]);\n    hasher.finalize()")],
    """fn main() {
    let (mut cl, mut sv, mut db) = (Cl::<48>::new(OsRng), Sv::<48>::new(OsRng), Db::default());
    db.put(cl.register_alloc(b"u", b"p", Par::default(), Cheap(32)).unwrap());
    let (c, cm) = cl.begin();
    let (s, sm) = sv.begin();
    let (ClientMessage::Nonce(mut t), ServerMessage::Nonce(n)) = (cm, sm) else { panic!() };
    t[47] ^= 1;
    let (c, _) = c.agree_ssid(n).start_augmentation(b"u", b"p");
    let (s, m) = s.agree_ssid(t).generate_client_info(b"u", &db, OsRng);
    let ServerMessage::AugmentationInfo { x_pub, salt, .. } = m else { panic!() };
    let c = c.generate_cpace_alloc(x_pub, &salt, Par::default(), Cheap(32)).unwrap();
    let (a, b) = keys(c, s, (b"", b""));
    check(a != b, "different nonces, different keys");
}
""", True)

bug("au-buffer-off-by-one", "A07",
    "username and password that fill the buffer exactly, without room for the separator",
    "such inputs panic instead of being refused as too long",
    [(AC, "    if u + p + 1 > BUFSIZ {", "    if u + p > BUFSIZ {")],
    """fn main() {
    let ok = std::panic::catch_unwind(|| {
        let mut cl = Cl::<16>::new(OsRng);
        let r = cl.register::<_, 8>(b"user", b"pass", Par::default(), Cheap(32));
        matches!(r, Err(Error::UsernameOrPasswordTooLong))
    });
    check(matches!(ok, Ok(true)), "too long");
}
""", True)

bug("au-default-params", "A08",
    "a registration (fixed buffer) with parameters that are not the hasher's default",
    "the verifier is computed with the default parameters, while the message names the given ones",
    [(AC, """        let salt_string = SaltString::generate(&mut self.rng);

        // compute the verifier W
        let pw_hash = hash_password::<&[u8], P, &SaltString, H, BUFSIZ>(
            username,
            password,
            &salt_string,
            params.clone(),
""", """        let salt_string = SaltString::generate(&mut self.rng);

        // compute the verifier W
        let pw_hash = hash_password::<&[u8], P, &SaltString, H, BUFSIZ>(
            username,
            password,
            &salt_string,
            H::Params::default(),
""")],
    """fn main() {
    let (mut cl, mut sv, mut db) = (Cl::<16>::new(OsRng), Sv::<16>::new(OsRng), Db::default());
    db.put(cl.register::<_, 50>(b"u", b"p", Par("n=5".into()), Cheap(32)).unwrap());
    let ssid = [b'x'; 20];
    let (c, s) = to_cpace(&mut cl, &mut sv, &db, (&ssid, &ssid), b"u", b"p", 32).unwrap();
    let (a, b) = keys(c, s, (b"", b""));
    check(a == b, "login with the registered password");
}
""", True)

bug("au-half-hash", "A09",
    "a password hasher with 64 bytes of output",
    "the second half of 64-byte password hashes is ignored (on both sides)",
    [(AU, "            Ok(Scalar::from_bytes_mod_order_wide(arr))\n", "            let wide: [u8; 64] = arr;\n            let mut low = [0u8; 32];\n            low.copy_from_slice(&wide[..32]);\n            Ok(Scalar::from_bytes_mod_order(low))\n")],
    """fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let m = cl.register_alloc(b"u", b"p", Par::default(), Cheap(64)).unwrap();
    let ClientMessage::Registration { salt, verifier, .. } = m else { panic!() };
    let h = Cheap(64).hash_password_customized(b"u:p", None, None, Par::default(), &salt).unwrap();
    let b: [u8; 64] = h.hash.unwrap().as_bytes().try_into().unwrap();
    check(verifier == RISTRETTO_BASEPOINT_POINT * Scalar::from_bytes_mod_order_wide(&b), "the verifier");
}
""", True)

bug("au-nonce-tail", "A10",
    "a nonce length above 32",
    "nonces take at most 32 bytes from the generator, the rest is zero",
    [(AU, "    rng.fill_bytes(&mut nonce);", "    let random = N.min(32);\n    rng.fill_bytes(&mut nonce[..random]);")],
    """fn main() {
    let mut cl = Cl::<64>::new(OsRng);
    let (_, m) = cl.begin();
    let ClientMessage::Nonce(n) = m else { panic!() };
    check(n[32..] != [0; 32], "a random tail");
}
""", True)

bug("au-blinding-64", "A10",
    "looking at which randomness the blinding value of the strong variant is made of",
    "the blinding value has 64 bits only",
    [(AC, "            let val = Scalar::random(rng);\n", "            let val = Scalar::from(rng.next_u64());\n")],
    """struct Ones;
impl RngCore for Ones {
    fn next_u32(&mut self) -> u32 { 3 }
    fn next_u64(&mut self) -> u64 { 3 }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(7) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { d.fill(7); Ok(()) }
}
impl CryptoRng for Ones {}
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let (_, m) = cl.begin_prestablished_ssid([0; 16]).unwrap().start_augmentation_strong(b"u", b"p", &mut Ones);
    let ClientMessage::StrongUsername { blinded, .. } = m else { panic!() };
    let z = RistrettoPoint::from_hash(Sha512::new().chain_update(1u32.to_le_bytes()).chain_update(b"up"));
    check(blinded != z * Scalar::from(3u64), "a 64-bit blinding value");
}
""", True)

bug("au-short-salt", "A11",
    "a verifier stored with a short salt (4 to 7 characters)",
    "the peer refuses to deserialise messages with short salts",
    [(AU, "            SaltString::from_b64(v).map_err(Error::custom)", "            if v.len() < 8 {\n                return Err(E::invalid_length(v.len(), &self));\n            }\n            SaltString::from_b64(v).map_err(Error::custom)")],
    """fn main() {
    let m: ServerMessage<'_, 16> = ServerMessage::AugmentationInfo { group: "ristretto255", x_pub: RISTRETTO_BASEPOINT_POINT,
        salt: SaltString::from_b64("abcd").unwrap(), pbkdf_params: ParamsString::default() };
    let mut buf = [0; 500];
    let b = postcard::to_slice(&m, &mut buf).unwrap();
    check(postcard::from_bytes::<ServerMessage<'_, 16>>(b).is_ok(), "round trip");
}
""", True)

bug("au-params-three", "A11",
    "more than three hashing parameters",
    "deserialised parameters keep the first three only",
    [(AU, "            v.parse().map_err(Error::custom)", "            let end = v.match_indices(',').nth(2).map_or(v.len(), |(at, _)| at);\n            v[..end].parse().map_err(Error::custom)")],
    """fn main() {
    let m: ServerMessage<'_, 16> = ServerMessage::AugmentationInfo { group: "ristretto255", x_pub: RISTRETTO_BASEPOINT_POINT,
        salt: SaltString::from_b64("abcdefgh").unwrap(), pbkdf_params: "a=1,b=2,c=3,d=4".parse().unwrap() };
    let mut buf = [0; 500];
    let b = postcard::to_slice(&m, &mut buf).unwrap();
    let ServerMessage::AugmentationInfo { pbkdf_params, .. } = postcard::from_bytes::<ServerMessage<'_, 16>>(b).unwrap() else { panic!() };
    check(pbkdf_params.as_str() == "a=1,b=2,c=3,d=4", "round trip");
}
""", True)
