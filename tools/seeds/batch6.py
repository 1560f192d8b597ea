# operations that panic or refuse without reason
BUGS = []


def bug(id, prop, needs, breaks, edits, main, aucpace=False, demo=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main, aucpace=aucpace, demo=list(demo)))


SP = "spake2/src/lib.rs"
ED = "spake2/src/ed25519.rs"
AS = "aucpace/src/server.rs"
AC = "aucpace/src/client.rs"
UT = "aucpace/src/utils.rs"
SC = "srp/src/client.rs"
SS = "srp/src/server.rs"
SU = "srp/src/utils.rs"
SPUSE = r"""#[allow(unused_imports)]
use spake2::{Ed25519Group, Group, Identity, Password, Spake2};
#[allow(unused_imports)]
use curve25519_dalek::{constants::ED25519_BASEPOINT_POINT as B, edwards::CompressedEdwardsY, scalar::Scalar, traits::Identity as _};
#[allow(unused_imports)]
use sha2::{Digest, Sha256};
type S = Spake2<Ed25519Group>;
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
#[allow(dead_code)] fn h(b: &[u8]) -> Vec<u8> { Sha256::digest(b).to_vec() }
"""
SRUSE = r"""#[allow(unused_imports)]
use num_bigint::BigUint;
#[allow(unused_imports)]
use srp::{client::SrpClient, server::SrpServer, groups::{G_1024, G_2048}, types::{SrpAuthError, SrpGroup}};
#[allow(unused_imports)]
use sha2::{Digest, Sha256};
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
#[allow(dead_code)] fn rnd(n: u64) -> Vec<u8> { Sha256::digest(n.to_le_bytes()).to_vec() }
#[allow(dead_code)] fn big(b: &[u8]) -> BigUint { BigUint::from_bytes_be(b) }
"""


bug("sp-long-symmetric", "X03",
    "a symmetric session whose identity has 65536 or more bytes",
    "finish panics because the length of the identity is kept in two bytes",
    [(ED, """    let mut ids_hash = Sha256::new();
    ids_hash.update(id_s);

    let mut hash""", """    // lengths of identities have two bytes in the messages of the applications that use this mode
    let len = u16::try_from(id_s.len()).expect("length of the identity");
    let mut ids_hash = Sha256::new();
    ids_hash.update(&id_s[..usize::from(len)]);

    let mut hash""")],
    SPUSE + r"""
fn main() {
    for n in [0, 3, 255, 256, 65535, 65536, 100_000] {
        let (p, i) = (Password::new(b"password"), Identity::new(&vec![b'x'; n]));
        let (s, m) = S::start_symmetric(&p, &i);
        let (t, n) = S::start_symmetric(&p, &i);
        check(s.finish(&n).unwrap() == t.finish(&m).unwrap(), "same key");
    }
}
""")

bug("sr-short-proof", "X03",
    "a client that sends a proof shorter than the hash",
    "the comparison runs over the bytes of the expected proof and panics when the received one ends before",
    [(SS, """        if self.m1.ct_eq(reply).unwrap_u8() == 1 {
""", """        // no shortcut: every byte is looked at
        let mut same = reply.len().ct_eq(&self.m1.len());
        for (i, b) in self.m1.iter().enumerate() {
            same &= b.ct_eq(&reply[i]);
        }
        if same.unwrap_u8() == 1 {
""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"alice", b"password", b"salt");
    let (a, b) = (rnd(1), rnd(2));
    let x = c.process_reply(&a, b"alice", b"password", b"salt", &s.compute_public_ephemeral(&b, &v)).unwrap();
    let y = s.process_reply(&b, &v, &c.compute_public_ephemeral(&a)).unwrap();
    for n in [0, 1, 31, 33, 100] {
        let mut p = x.proof().to_vec();
        p.resize(n, 0);
        check(y.verify_client(&p).is_err(), "a wrong proof is refused");
    }
    check(y.verify_client(x.proof()).is_ok(), "the right proof is accepted");
}
""")

bug("au-decoy-text", "X03",
    "the strong variant and a user name that is neither registered nor UTF-8",
    "the decoy is computed for the name as text, so that a stranger who sends another kind of name makes the server panic",
    [(AS, """        let mut hasher: D = Default::default();
        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let cofactor = Scalar::ONE;
        let q = Scalar::from_hash(hasher);
""", """        let mut hasher: D = Default::default();
        hasher.update(self.secret.0.to_le_bytes());
        // a name at a time, as it is shown to people
        let name = core::str::from_utf8(username).expect("names are text");
        for c in name.chars() {
            hasher.update(c.encode_utf8(&mut [0; 4]).as_bytes());
        }
        let cofactor = Scalar::ONE;
        let q = Scalar::from_hash(hasher);
""")],
    r"""
fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    for name in [&b"alice"[..], b"", &[0xc3, 0xa9], &[0xff], &[0x80; 40]] {
        let s = sv.begin_prestablished_ssid([7; 16]).unwrap();
        let r = s.generate_client_info_strong(name, RISTRETTO_BASEPOINT_POINT, &Db::default(), OsRng);
        check(r.is_ok(), "an answer for every name");
    }
}
""", True)

bug("au-salt-minimum", "X03",
    "a server that stores salts of fewer than 8 bytes",
    "the client with a fixed buffer refuses salts that are shorter than it likes with an error of the password hasher, which was not asked",
    [(AC, """        let cofactor = Scalar::ONE;
        let pw_hash = hash_password::<&[u8], &[u8], S, H, BUFSIZ>(
            self.username,
            self.password,
            salt,
            params,
            &hasher,
        )?;
        let w = scalar_from_hash(&pw_hash)?;

        let prs""", """        let cofactor = Scalar::ONE;
        let salt: Salt<'salt> = salt.into();
        let mut raw = [0; 48];
        let raw = salt.decode_b64(&mut raw).map_err(Error::PasswordHashing)?;
        if raw.len() < 8 {
            return Err(Error::PasswordHashing(password_hash::Error::SaltInvalid(
                password_hash::errors::InvalidValue::TooShort,
            )));
        }
        let pw_hash = hash_password::<&[u8], &[u8], Salt<'salt>, H, BUFSIZ>(
            self.username,
            self.password,
            salt,
            params,
            &hasher,
        )?;
        let w = scalar_from_hash(&pw_hash)?;

        let prs""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    for n in [3, 4, 7, 8, 16, 32, 48] {
        let salt = SaltString::encode_b64(&vec![5; n]).unwrap();
        let go = |cl: &mut Cl<16>| cl.begin_prestablished_ssid([7; 16]).unwrap().start_augmentation(b"alice", b"password").0;
        let a = go(&mut cl).generate_cpace::<_, 100>(RISTRETTO_BASEPOINT_POINT, &salt, Par::default(), Cheap(32));
        let b = go(&mut cl).generate_cpace_alloc(RISTRETTO_BASEPOINT_POINT, &salt, Par::default(), Cheap(32));
        check(a.is_ok() && b.is_ok(), "every salt is hashed");
    }
}
""", True)

bug("au-flat-ssid", "X03",
    "a pre-established SSID that consists of one byte repeated",
    "the server refuses an SSID of sufficient length as insecure because it looks constant",
    [(AS, """        if ssid.as_ref().len() < MIN_SSID_LEN {
            return Err(Error::InsecureSsid);
        }
""", """        let bytes = ssid.as_ref();
        if bytes.len() < MIN_SSID_LEN || bytes.iter().all(|b| *b == bytes[0]) {
            return Err(Error::InsecureSsid);
        }
""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let mut sv = Sv::<16>::new(OsRng);
    for ssid in [&[1; 15][..], &[1; 16], &[0; 64], b"some SSID of sufficient length"] {
        check(cl.begin_prestablished_ssid(ssid).is_ok() == (ssid.len() >= 16), "client");
        check(sv.begin_prestablished_ssid(ssid).is_ok() == (ssid.len() >= 16), "server");
    }
}
""", True, [] )

bug("au-long-channel", "X03",
    "a channel identifier of 65536 or more bytes",
    "the keypair for CPace cannot be generated: the length of the channel identifier has to fit two bytes",
    [(UT, """    hasher.update(prs);
    hasher.update(ci);
""", """    hasher.update(prs);
    let ci = ci.as_ref();
    for block in ci.chunks(usize::from(u16::MAX)) {
        hasher.update(block);
    }
    // nothing that would not fit the length field of a message
    assert!(u16::try_from(ci.len()).is_ok(), "channel identifier too long");
""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let mut sv = Sv::<16>::new(OsRng);
    for n in [0, 1, 65535, 65536, 200_000] {
        let ci = vec![b'c'; n];
        let c = to_cpace(&mut cl, &mut sv, &Db::default(), (&[7; 16], &[7; 16]), b"alice", b"password", 32).unwrap();
        keys(c.0, c.1, (&ci, &ci));
    }
}
""", True)
