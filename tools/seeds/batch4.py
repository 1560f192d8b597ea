# the ways to build the crates
BUGS = []


def bug(id, prop, needs, breaks, edits, main, aucpace=False, demo=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main, aucpace=aucpace, demo=list(demo)))


SP = "spake2/src/lib.rs"
ED = "spake2/src/ed25519.rs"
SV = "aucpace/src/server.rs"
CL = "aucpace/src/client.rs"
UT = "aucpace/src/utils.rs"
SC = "srp/src/client.rs"
SS = "srp/src/server.rs"
SU = "srp/src/utils.rs"
RUN = 'timeout 200 "$d/target/debug/demo"'
BUILD = 'CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet 2> build.log || { cat build.log; exit 2; }\n'
MIRI = '''CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet 2> build.log || { cat build.log; exit 2; }
here=$("$d/target/debug/demo") || exit 2
# the same on a machine of 32 bits with the other byte order
export MIRI_SYSROOT="$d/sysroot" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
cargo +nightly miri setup --target powerpc-unknown-linux-gnu > miri.log 2>&1 || { tail -5 miri.log; exit 2; }
there=$(CARGO_TARGET_DIR="$d/target" timeout 150 cargo +nightly miri run --release --offline --quiet --target powerpc-unknown-linux-gnu 2> miri.log)
[ -n "$there" ] || { tail -5 miri.log; exit 2; }
[ "$here" = "$there" ] || { echo "FAILED: $here here, $there on another machine"; exit 1; }
'''
RNG = r"""
#[derive(Clone, Copy)] struct Fixed(u8);
impl RngCore for Fixed {
    fn next_u32(&mut self) -> u32 { self.0 as u32 * 0x01010101 }
    fn next_u64(&mut self) -> u64 { self.0 as u64 * 0x0101010101010101 }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(self.0) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { d.fill(self.0); Ok(()) }
}
impl CryptoRng for Fixed {}
"""

bug("xb-native-endian", "X02",
    "a machine whose byte order is not that of x86",
    "the domain separation of AuCPace's hashes is written in the machine's byte order, so that machines of different order do not agree on keys",
    [(UT, "hasher.update(N.to_le_bytes());", "hasher.update(N.to_ne_bytes());")],
    "use rand_core::{CryptoRng, RngCore};\nuse sha2::Sha512;\n" + RNG + r"""
fn main() {
    let mut server = aucpace::AuCPaceServer::<Sha512, _, 16>::new(Fixed(7));
    let (_, x) = server.generate_long_term_keypair();
    let st = server.begin_prestablished_ssid(b"a session identifier").unwrap();
    struct Db;
    impl aucpace::Database for Db {
        type PasswordVerifier = curve25519_dalek::RistrettoPoint;
        fn lookup_verifier(&self, _: &[u8]) -> Option<(Self::PasswordVerifier, password_hash::SaltString, password_hash::ParamsString)> { None }
        fn store_verifier(&mut self, _: &[u8], _: password_hash::SaltString, _: Option<&[u8]>, _: Self::PasswordVerifier, _: password_hash::ParamsString) {}
    }
    let (st, _) = st.generate_client_info(b"user", &Db, Fixed(9));
    let (_, m) = st.generate_public_key(b"channel");
    let _ = x;
    if let aucpace::ServerMessage::PublicKey(p) = m { println!("{:?}", p.compress().to_bytes()); }
}
""",
    demo=[(BUILD, ""), (RUN, MIRI)])

bug("xb-word-secret", "X02",
    "a machine of 32 bits and a user that is not registered",
    "the server's secret enters the decoys as a machine word, so that half of it is lost on machines of 32 bits and decoys change when a server moves",
    [(SV, """        // generate the salt from the hash of the server secret and the user's name
        let mut hasher: D = Default::default();
        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
""", """        // generate the salt from the hash of the server secret and the user's name
        let mut hasher: D = Default::default();
        let secret = self.secret.0 as usize;
        hasher.update(secret.to_le_bytes());
        hasher.update(username);
""")],
    "use rand_core::{CryptoRng, RngCore};\nuse sha2::Sha512;\n" + RNG + r"""
fn main() {
    let mut server = aucpace::AuCPaceServer::<Sha512, _, 16>::new(Fixed(7));
    let st = server.begin_prestablished_ssid(b"a session identifier").unwrap();
    struct Db;
    impl aucpace::Database for Db {
        type PasswordVerifier = curve25519_dalek::RistrettoPoint;
        fn lookup_verifier(&self, _: &[u8]) -> Option<(Self::PasswordVerifier, password_hash::SaltString, password_hash::ParamsString)> { None }
        fn store_verifier(&mut self, _: &[u8], _: password_hash::SaltString, _: Option<&[u8]>, _: Self::PasswordVerifier, _: password_hash::ParamsString) {}
    }
    let (_, m) = st.generate_client_info(b"user", &Db, Fixed(9));
    if let aucpace::ServerMessage::AugmentationInfo { salt, .. } = m { println!("{salt}"); }
}
""", demo=[(BUILD, ""), (RUN, MIRI)])

bug("xb-debug-effect", "X02",
    "a build without debug assertions, and two B sides whose identity differs",
    "the identity of B enters the transcript inside a debug assertion, so that released builds do not bind it",
    [(ED, """    let mut idb_hash = Sha256::new();
    idb_hash.update(id_b);
""", """    let mut idb_hash = Sha256::new();
    let mut absorb = |bytes: &[u8]| {
        idb_hash.update(bytes);
        bytes.len() <= isize::MAX as usize
    };
    debug_assert!(absorb(id_b));
    let _ = &mut absorb;
""")],
    r"""use spake2::{Ed25519Group, Identity, Password, Spake2};
fn main() {
    let pw = Password::new(b"password");
    let (a, m1) = Spake2::<Ed25519Group>::start_a(&pw, &Identity::new(b"alice"), &Identity::new(b"bob"));
    let (b, m2) = Spake2::<Ed25519Group>::start_b(&pw, &Identity::new(b"alice"), &Identity::new(b"carol"));
    if a.finish(&m2).unwrap() == b.finish(&m1).unwrap() {
        println!("FAILED: sessions with different identities have the same key");
        std::process::exit(1);
    }
}
""", demo=[("[profile.dev]\n", "[profile.dev]\ndebug-assertions = false\n")])

bug("xb-plain-neutral", "X02",
    "a build without the strong variant, and a server that sends the neutral element",
    "the client refuses the neutral element as the server's augmentation key only if the strong variant is compiled in",
    [(CL, """        S: Into<Salt<'salt>>,
    {
        // check for the identity point
        if x_pub.is_identity() {
            return Err(Error::IllegalPointError);
        }

        let cofactor = Scalar::ONE;
        let pw_hash = hash_password::""", """        S: Into<Salt<'salt>>,
    {
        // check for the identity point
        if cfg!(feature = "strong_aucpace") && x_pub.is_identity() {
            return Err(Error::IllegalPointError);
        }

        let cofactor = Scalar::ONE;
        let pw_hash = hash_password::""")],
    r"""#![allow(unused)]
use aucpace::client::AuCPaceClient;
use curve25519_dalek::{ristretto::RistrettoPoint, traits::Identity};
use password_hash::SaltString;
use rand_core::OsRng;
use sha2::Sha512;
fn main() {
    let mut c = AuCPaceClient::<Sha512, scrypt::Scrypt, OsRng, 16>::new(OsRng);
    let st = c.begin_prestablished_ssid(b"a session identifier").unwrap();
    let (st, _) = st.start_augmentation(b"user", b"password");
    let salt = SaltString::from_b64("c2FsdHNhbHQ").unwrap();
    let r = st.generate_cpace::<_, 100>(RistrettoPoint::identity(), &salt, scrypt::Params::new(1, 1, 1, 32).unwrap(), scrypt::Scrypt);
    if r.is_ok() {
        println!("FAILED: the neutral element was taken");
        std::process::exit(1);
    }
}
""", demo=[('features = ["alloc", "partial_augmentation", "strong_aucpace", "serde"]', 'features = ["alloc"]'),
           ('digest = "0.10"\n', 'digest = "0.10"\nscrypt = { version = "0.11", default-features = false, features = ["simple"] }\n')])

bug("xb-exact-buffer", "X02",
    "a build without alloc, and a fixed buffer that user name and password fill exactly",
    "without the alloc feature the fixed hashing buffer keeps one byte for itself, so that credentials that fit are refused",
    [(CL, "    if u + p + 1 > BUFSIZ {", "    // keep room for a terminator where there is no heap to fall back on\n    if u + p + 1 > BUFSIZ - usize::from(!cfg!(feature = \"alloc\")) {")],
    r"""#![allow(unused)]
use aucpace::client::AuCPaceClient;
use rand_core::OsRng;
use sha2::Sha512;
fn main() {
    let mut c = AuCPaceClient::<Sha512, scrypt::Scrypt, OsRng, 16>::new(OsRng);
    let r = c.register::<&[u8], 13>(b"user", b"password", scrypt::Params::new(1, 1, 1, 32).unwrap(), scrypt::Scrypt);
    if r.is_err() {
        println!("FAILED: credentials that fit the buffer were refused");
        std::process::exit(1);
    }
}
""", demo=[('features = ["alloc", "partial_augmentation", "strong_aucpace", "serde"]', 'features = ["strong_aucpace"]'),
           ('digest = "0.10"\n', 'digest = "0.10"\nscrypt = { version = "0.11", default-features = false, features = ["simple"] }\n')])
