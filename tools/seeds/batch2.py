BUGS = []


def bug(id, prop, needs, breaks, edits, main, aucpace=False):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main, aucpace=aucpace))


SP = "spake2/src/lib.rs"
ED = "spake2/src/ed25519.rs"
SV = "aucpace/src/server.rs"
CL = "aucpace/src/client.rs"
UT = "aucpace/src/utils.rs"
SC = "srp/src/client.rs"
SS = "srp/src/server.rs"
SU = "srp/src/utils.rs"
SPUSE = r"""use rand_core::{CryptoRng, RngCore, Error};
#[allow(unused_imports)]
use spake2::{Ed25519Group, Error as E, Identity, Password, Spake2};
#[allow(dead_code)] type S = Spake2<Ed25519Group>;
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
#[allow(dead_code)] struct Fixed(u8);
impl RngCore for Fixed {
    fn next_u32(&mut self) -> u32 { self.0 as u32 * 0x01010101 }
    fn next_u64(&mut self) -> u64 { self.0 as u64 * 0x0101010101010101 }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(self.0) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { d.fill(self.0); Ok(()) }
}
impl CryptoRng for Fixed {}
"""
SRUSE = r"""#[allow(unused_imports)]
use num_bigint::BigUint;
#[allow(unused_imports)]
use srp::{client::SrpClient, server::SrpServer, groups::{G_1024, G_2048}, types::{SrpAuthError, SrpGroup}};
#[allow(unused_imports)]
use sha2::{Digest, Sha256};
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
#[allow(dead_code)] fn rnd(n: u64) -> Vec<u8> { Sha256::digest(n.to_le_bytes()).to_vec() }
"""

# ---------------------------------------------------------------- X01

bug("sp-race-cache", "X01",
    "two threads that start sessions with different passwords at the same time",
    "the scalar of the last password is kept in a process-wide cache of five atomic words, which are not written together: a session can get a scalar made of two passwords' words",
    [(ED, """fn ed25519_hash_to_scalar(s: &[u8]) -> c2_Scalar {
""", """/// The last password's scalar: the expansion is the same for every login of a user.
static LAST: [core::sync::atomic::AtomicU64; 5] = [
    core::sync::atomic::AtomicU64::new(0),
    core::sync::atomic::AtomicU64::new(0),
    core::sync::atomic::AtomicU64::new(0),
    core::sync::atomic::AtomicU64::new(0),
    core::sync::atomic::AtomicU64::new(0),
];

fn ed25519_hash_to_scalar(s: &[u8]) -> c2_Scalar {
    use core::sync::atomic::Ordering::SeqCst;
    let digest = Sha256::digest(s);
    let mut tag = [0u8; 8];
    tag.copy_from_slice(&digest[..8]);
    let tag = u64::from_le_bytes(tag) | 1;
    if LAST[4].load(SeqCst) == tag {
        let mut bytes = [0u8; 32];
        for (chunk, word) in bytes.chunks_mut(8).zip(&LAST) {
            chunk.copy_from_slice(&word.load(SeqCst).to_le_bytes());
        }
        return c2_Scalar::from_bytes_mod_order(bytes);
    }
    let scalar = expand_to_scalar(s);
    for (chunk, word) in scalar.as_bytes().chunks(8).zip(&LAST) {
        let mut w = [0u8; 8];
        w.copy_from_slice(chunk);
        word.store(u64::from_le_bytes(w), SeqCst);
    }
    LAST[4].store(tag, SeqCst);
    scalar
}

fn expand_to_scalar(s: &[u8]) -> c2_Scalar {
""")],
    SPUSE + r"""
fn main() {
    let id = Identity::new(b"");
    let pws: Vec<Password> = (0..6u8).map(|n| Password::new([n; 5])).collect();
    let want: Vec<Vec<u8>> = pws.iter().map(|p| S::start_a_with_rng(p, &id, &id, Fixed(7)).1).collect();
    std::thread::scope(|s| {
        for t in 0..8usize {
            let (pws, want, id) = (&pws, &want, &id);
            s.spawn(move || for n in 0..60000usize {
                let k = (n * 7 + t * 3 + n / 3) % 6;
                check(S::start_a_with_rng(&pws[k], id, id, Fixed(7)).1 == want[k], "a session's message depends on other threads");
            });
        }
    });
}
""")

bug("au-global-lockout", "X01",
    "fifty failed explicit authentications in a row anywhere in the process, then a good one",
    "a guard against guessing counts the failures of the whole process: after fifty of them in a row every other user is refused as well",
    [(SV, """        let (ta, tb) = compute_authenticator_messages::<D>(self.ssid, self.sk1);
        if tb.ct_eq""", """        use core::sync::atomic::{AtomicU32, Ordering};
        /// failed authentications in a row
        static FAILURES: AtomicU32 = AtomicU32::new(0);

        let (ta, tb) = compute_authenticator_messages::<D>(self.ssid, self.sk1);
        if FAILURES.load(Ordering::SeqCst) >= 50 {
            return Err(Error::MutualAuthFail);
        }
        if tb.ct_eq"""),
     (SV, """            let sk = compute_session_key::<D>(self.ssid, self.sk1);
            let message = ServerMessage::Authenticator(""", """            FAILURES.store(0, Ordering::SeqCst);
            let sk = compute_session_key::<D>(self.ssid, self.sk1);
            let message = ServerMessage::Authenticator("""),
     (SV, """        } else {
            Err(Error::MutualAuthFail)
        }""", """        } else {
            FAILURES.fetch_add(1, Ordering::SeqCst);
            Err(Error::MutualAuthFail)
        }""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let mut sv = Sv::<16>::new(OsRng);
    let mut db = Db::default();
    db.put(cl.register_alloc(b"alice", b"pw", Par::default(), Cheap(32)).unwrap());
    let mut login = |good: bool| {
        let (c, s) = to_cpace(&mut cl, &mut sv, &db, (&[1; 16], &[1; 16]), b"alice", b"pw", 32).unwrap();
        let (c, cm) = c.generate_public_key(b"ci", &mut OsRng);
        let (s, sm) = s.generate_public_key(b"ci");
        let (_c, tb) = c.receive_server_pubkey(spub(&sm)).unwrap();
        let mut tb = cauth(&tb);
        if !good { tb[0] ^= 1; }
        s.receive_client_pubkey(cpub(&cm)).unwrap().receive_client_authenticator(tb).is_ok()
    };
    check(login(true), "first login");
    for _ in 0..60 { check(!login(false), "a wrong authenticator"); }
    check(login(true), "login after other sessions failed");
}
""", True)

bug("au-reseed-failed-begin", "A05",
    "a server that refuses a short SSID between two logins of an unknown name",
    "a refused SSID makes the server draw a new decoy secret, so that the decoy answers change afterwards",
    [(SV, """        if ssid.as_ref().len() < MIN_SSID_LEN {
            return Err""", """        if ssid.as_ref().len() < MIN_SSID_LEN {
            // whoever sent this may be probing us
            self.secret = ServerSecret::new(&mut self.rng);
            return Err""")],
    r"""
fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    let db = Db::default();
    let mut ask = |bad: bool| {
        if bad { check(sv.begin_prestablished_ssid(b"short").is_err(), "short"); }
        let s = sv.begin_prestablished_ssid([1; 16]).unwrap();
        match s.generate_client_info(b"nobody", &db, OsRng).1 { ServerMessage::AugmentationInfo { salt, .. } => salt.as_str().to_string(), _ => panic!() }
    };
    let a = ask(false);
    check(ask(false) == a, "same answer");
    check(ask(true) == a, "same answer after a refused SSID");
}
""", True)

bug("sr-verifier-memo", "X01",
    "one user name and password used in two groups with the same hash and salt, one right after the other on a thread",
    "g^x is remembered per thread by x alone, so that a client in another group computes with the wrong value",
    [(SC, """    pub fn compute_v(&self, x: &BigUint) -> BigUint {
        self.params.g.modpow(x, &self.params.n)
""", """    pub fn compute_v(&self, x: &BigUint) -> BigUint {
        thread_local! {
            static LAST: std::cell::RefCell<Option<(BigUint, usize, BigUint)>> =
                const { std::cell::RefCell::new(None) };
        }
        let len = self.params.n.to_bytes_be().len();
        LAST.with(|last| {
            let mut last = last.borrow_mut();
            match &*last {
                Some((y, l, v)) if y == x && *l == len => v.clone(),
                _ => {
                    let v = self.params.g.modpow(x, &self.params.n);
                    *last = Some((x.clone(), len, v.clone()));
                    v
                }
            }
        })
""")],
    SRUSE + r"""
fn main() {
    let p: BigUint = &G_1024.n - 38u32;
    let other = SrpGroup { n: p.clone(), g: BigUint::from(2u32) };
    let c1 = SrpClient::<Sha256>::new(&G_1024);
    let c2 = SrpClient::<Sha256>::new(&other);
    let want = std::thread::scope(|s| s.spawn(|| c2.compute_verifier(b"u", b"p", b"s")).join().unwrap());
    let _ = c1.compute_verifier(b"u", b"p", b"s");
    check(c2.compute_verifier(b"u", b"p", b"s") == want, "verifier depends on what was computed before");
}
""")

bug("au-wrapping-sessions", "X01",
    "more than 4096 sessions begun on one server object",
    "the server counts the nonces it has handed out and reseeds its decoy secret from time to time, so that a long-lived server changes its answers for unknown users",
    [(SV, """    /// the secret used to obscure when a password lookup failed
    secret: ServerSecret,

    d: PhantomData<D>,
}

impl""", """    /// the secret used to obscure when a password lookup failed
    secret: ServerSecret,

    /// sessions begun with the present secret
    begun: u16,

    d: PhantomData<D>,
}

impl"""),
     (SV, """            secret,
            d: PhantomData,
        }
    }

    /// Create a new server in the SSID""", """            secret,
            begun: 0,
            d: PhantomData,
        }
    }

    /// Create a new server in the SSID"""),
     (SV, """        let next_step = AuCPaceServerSsidEstablish::new(self.secret.clone(), &mut self.rng);
""", """        self.begun += 1;
        if self.begun == 4096 {
            self.secret = ServerSecret::new(&mut self.rng);
            self.begun = 0;
        }
        let next_step = AuCPaceServerSsidEstablish::new(self.secret.clone(), &mut self.rng);
""")],
    r"""
fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    let db = Db::default();
    let mut ask = || {
        let s = sv.begin().0.agree_ssid([1; 16]);
        match s.generate_client_info(b"nobody", &db, OsRng).1 { ServerMessage::AugmentationInfo { salt, .. } => salt.as_str().to_string(), _ => panic!() }
    };
    let a = ask();
    for _ in 0..5000 { check(ask() == a, "same answer from the same server"); }
}
""", True)

# ---------------------------------------------------------------- SPAKE2

bug("sp-equal-ids-sort", "S04",
    "A and B with equal identities, where B's message is smaller than A's",
    "with equal identities the two messages are hashed in ascending order, as in the symmetric mode, instead of A's first",
    [(ED, """    //let mut hash = G::TranscriptHash::default();
""", """    // without distinct identities there is no first party
    let (first_msg, second_msg) = if id_a == id_b && second_msg < first_msg {
        (second_msg, first_msg)
    } else {
        (first_msg, second_msg)
    };

""")],
    SPUSE + r"""
use sha2::{Digest, Sha256};
fn main() {
    let id = Identity::new(b"same");
    let pw = Password::new(b"pw");
    for _ in 0..40 {
        // the peer sends the neutral element plus its blinding: K is then pw-independent
        let (a, ma) = S::start_a(&pw, &id, &id);
        let (b, mb) = S::start_b(&pw, &id, &id);
        let (ka, kb) = (a.finish(&mb).unwrap(), b.finish(&ma).unwrap());
        check(ka == kb, "agreement");
        let _ = (ma, kb);
    }
    // a fixed exchange with a known scalar on one side
    use curve25519_dalek::{constants::ED25519_BASEPOINT_POINT as B, edwards::CompressedEdwardsY, scalar::Scalar};
    let n = CompressedEdwardsY([0xf0, 0x4f, 0x2e, 0x7e, 0xb7, 0x34, 0xb2, 0xa8, 0xf8, 0xb4, 0x72, 0xea, 0xf9, 0xc3,
        0xc6, 0x32, 0x57, 0x6a, 0xc6, 0x4a, 0xea, 0x65, 0x0b, 0x49, 0x6a, 0x8a, 0x20, 0xff, 0x00, 0xe5, 0x83, 0xc3]).decompress().unwrap();
    let mut okm = [0; 48];
    hkdf::Hkdf::<Sha256>::new(Some(b""), b"pw").expand(b"SPAKE2 pw", &mut okm).unwrap();
    okm.reverse();
    let mut wide = [0; 64];
    wide[..48].copy_from_slice(&okm);
    let w = Scalar::from_bytes_mod_order_wide(&wide);
    let x = Scalar::random(&mut Fixed(3));
    for k in 1u64..40 {
        let (a, ma) = S::start_a_with_rng(&pw, &id, &id, Fixed(3));
        let y = B * Scalar::from(k) + n * w;
        let mut mb = vec![0x42];
        mb.extend(y.compress().0);
        let sh = |b: &[u8]| Sha256::digest(b).to_vec();
        let t = [sh(b"pw"), sh(b"same"), sh(b"same"), ma[1..].to_vec(), mb[1..].to_vec(), (B * Scalar::from(k) * x).compress().0.to_vec()].concat();
        check(a.finish(&mb).unwrap() == sh(&t), "the key is the hash of A's message before B's");
    }
}
""")

bug("sp-long-id", "S02",
    "identities of more than 2048 bytes that agree in the first 2048",
    "an identity is cut off after 2048 bytes",
    [(SP, "        Self(p.to_vec())", "        // names are bounded; do not keep more of them than that\n        Self(p[..p.len().min(2048)].to_vec())")],
    SPUSE + r"""
fn main() {
    let mut long = vec![b'n'; 3000];
    let (a, b) = (Identity::new(&long), Identity::new(b"b"));
    long[2999] = b'm';
    let a2 = Identity::new(&long);
    let pw = Password::new(b"pw");
    let (s, ma) = S::start_a(&pw, &a, &b);
    let (t, mb) = S::start_b(&pw, &a2, &b);
    check(s.finish(&mb).unwrap() != t.finish(&ma).unwrap(), "same key for different identities");
}
""")

bug("sp-len-u8", "S03",
    "a message of 289 bytes (33 modulo 256)",
    "the length of a message is compared modulo 256, so that much longer messages are taken for well-formed ones and refused with the wrong error",
    [(SP, "        if msg2.len() != 1 + G::element_length() {", "        if msg2.len() as u8 != 1 + G::element_length() as u8 {")],
    SPUSE + r"""
fn main() {
    let (a, b) = (Identity::new(b"a"), Identity::new(b"b"));
    let (s, _) = S::start_a(&Password::new(b"secret"), &a, &b);
    let (_, mut m) = S::start_b(&Password::new(b"secret"), &a, &b);
    m.resize(33 + 256, 0);
    check(s.finish(&m) == Err(E::WrongLength), "a message of 289 bytes has the wrong length");
}
""")

bug("sp-canonical-guess", "S03",
    "a message whose encoded element ends in the bytes ff 7f or ff ff (one in 32768)",
    "encodings that look non-canonical by their two highest bytes are refused although they decode",
    [(ED, """        let cey = CompressedEdwardsY(bytes);
        cey.decompress()""", """        // y must be below 2^255 - 19
        if bytes[31] & 0x7f == 0x7f && bytes[30] == 0xff {
            return None;
        }

        let cey = CompressedEdwardsY(bytes);
        cey.decompress()""")],
    SPUSE + r"""
use curve25519_dalek::edwards::CompressedEdwardsY;
fn main() {
    let (a, b) = (Identity::new(b"a"), Identity::new(b"b"));
    let mut seen = 0;
    for n in 0u8..200 {
        let mut m = [0x5au8; 33];
        m[0] = 0x42;
        m[1] = n;
        m[31] = 0xff;
        m[32] = 0x7f;
        let mut y = [0; 32];
        y.copy_from_slice(&m[1..]);
        if CompressedEdwardsY(y).decompress().is_some() {
            let (s, _) = S::start_a(&Password::new(b"secret"), &a, &b);
            check(s.finish(&m).is_ok(), "an encoding of a group element is accepted");
            seen += 1;
        }
    }
    check(seen > 10, "no elements");
}
""")

bug("sp-nth-ephemeral", "S05",
    "more than a thousand sessions in one process",
    "to spare the generator, every thousandth session of a process takes the double of the previous session's ephemeral scalar",
    [(ED, """        c2_Scalar::random(cspring)
""", """        use core::sync::atomic::{AtomicU32, Ordering};
        static COUNT: AtomicU32 = AtomicU32::new(1);

        let mut wide = [0u8; 64];
        cspring.fill_bytes(&mut wide);
        if COUNT.fetch_add(1, Ordering::Relaxed) % 1000 == 0 {
            // mix the halves from time to time
            let (low, high) = wide.split_at_mut(32);
            high.copy_from_slice(low);
            wide[8..].fill(0);
        }
        c2_Scalar::from_bytes_mod_order_wide(&wide)
""")],
    SPUSE + r"""
use curve25519_dalek::{constants::ED25519_BASEPOINT_POINT as B, edwards::CompressedEdwardsY, scalar::Scalar};
struct Count(u64);
impl RngCore for Count {
    fn next_u32(&mut self) -> u32 { panic!() }
    fn next_u64(&mut self) -> u64 { panic!() }
    fn fill_bytes(&mut self, d: &mut [u8]) { for (i, x) in d.iter_mut().enumerate() { *x = (self.0 as u8).wrapping_mul(31).wrapping_add((i as u8).wrapping_mul(7)) ^ (self.0 >> 8) as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Count {}
fn main() {
    let pw = Password::new(b"pw");
    let id = Identity::new(b"");
    let dec = |m: &[u8]| { let mut y = [0; 32]; y.copy_from_slice(&m[1..]); CompressedEdwardsY(y).decompress().unwrap() };
    let x0 = Scalar::random(&mut Count(0));
    let m0 = dec(&S::start_a_with_rng(&pw, &id, &id, Count(0)).1);
    for n in 1..3000 {
        let m = dec(&S::start_a_with_rng(&pw, &id, &id, Count(n)).1);
        let x = Scalar::random(&mut Count(n));
        check(m - m0 == B * (x - x0), &format!("session {n} is not blinded by what it drew"));
    }
}
""")

bug("sp-debug-alternate", "S06",
    "the alternate debug format {:#?}",
    "the alternate debug format also shows the session's message body",
    [(SP, """            .field("side", &self.side)
            .finish()""", """            .field("side", &self.side)
            .finish()?;
        if fmt.alternate() {
            write!(fmt, " /* {} bytes, first {:02x} */", self.msg1.len(), self.msg1[0])?;
        }
        Ok(())""")],
    SPUSE + r"""
fn main() {
    let id = Identity::new(b"id");
    let f = |p: &str, n: u8| format!("{:#?}", S::start_symmetric_with_rng(&Password::new(p), &id, Fixed(n)).0);
    for n in 0..100 { check(f("a", 0) == f(&n.to_string(), n), "the rendering depends on secrets"); }
}
""")

# ---------------------------------------------------------------- SRP

bug("sr-one", "R03",
    "a public value congruent to -1",
    "the server also refuses the public value N-1",
    [(SS, "        if &a_pub % &self.params.n == BigUint::default() {", """        let reduced = &a_pub % &self.params.n;
        // elements of small order
        if reduced == BigUint::default() || &reduced + 1u32 == self.params.n {""")],
    SRUSE + r"""
fn main() {
    let s = SrpServer::<Sha256>::new(&G_1024);
    check(s.process_reply(&rnd(1), &rnd(2), &[1]).is_ok(), "1 is not congruent to 0");
    check(s.process_reply(&rnd(1), &rnd(2), &(&G_1024.n - 1u32).to_bytes_be()).is_ok(), "N-1 is not congruent to 0");
    check(s.process_reply(&rnd(1), &rnd(2), &[]).is_err(), "0");
}
""")

bug("sr-salt-number", "R02",
    "salts that differ in leading zero bytes",
    "the salt is read as a number, so that leading zero bytes of it are lost",
    [(SC, """        x.update(salt);
""", """        // leading zeros depend on how the salt was stored
        match salt {
            [0, rest @ ..] if rest.len() > 3 => x.update(rest),
            _ => x.update(salt),
        }
""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", &[0, 5, 6, 7, 8]);
    let (a, b) = (rnd(1), rnd(2));
    let (ap, bp) = (c.compute_public_ephemeral(&a), s.compute_public_ephemeral(&b, &v));
    let cv = c.process_reply(&a, b"u", b"p", &[5, 6, 7, 8], &bp).unwrap();
    let sv = s.process_reply(&b, &v, &ap).unwrap();
    check(sv.verify_client(cv.proof()).is_err(), "another salt authenticates");
}
""")

bug("sr-proof-fold", "R04",
    "a proof with the same bit flipped in two bytes",
    "proofs are compared by accumulating the differences with xor, so that two equal differences cancel",
    [(SS, "        if self.m1.ct_eq(reply).unwrap_u8() == 1 {", """        // no early exit
        let difference = self.m1.iter().zip(reply).fold(0, |d, (x, y)| d ^ (x ^ y));
        if reply.len() == self.m1.len() && difference == 0 {"""),
     (SS, "use subtle::ConstantTimeEq;\n", "")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", b"s");
    let (a, b) = (rnd(1), rnd(2));
    let (ap, bp) = (c.compute_public_ephemeral(&a), s.compute_public_ephemeral(&b, &v));
    let cv = c.process_reply(&a, b"u", b"p", b"s", &bp).unwrap();
    let sv = s.process_reply(&b, &v, &ap).unwrap();
    let mut m = cv.proof().to_vec();
    check(sv.verify_client(&m).is_ok(), "the proof");
    m[3] ^= 4;
    m[17] ^= 4;
    check(sv.verify_client(&m).is_err(), "another string than the proof");
}
""")

bug("sr-three-strikes", "R04",
    "the right proof after three wrong ones on the same verifier",
    "a verifier that was given three wrong proofs refuses the right one as well",
    [(SC, """    m1: Output<D>,
    m2: Output<D>,
    key: Vec<u8>,
}""", """    m1: Output<D>,
    m2: Output<D>,
    key: Vec<u8>,
    failures: std::sync::atomic::AtomicU8,
}"""),
     (SC, """            m2,
            key: key.to_bytes_be(),
        })""", """            m2,
            key: key.to_bytes_be(),
            failures: Default::default(),
        })"""),
     (SC, """        if self.m2.ct_eq(reply).unwrap_u8() == 1 {
            Ok(())
        } else {
""", """        use std::sync::atomic::Ordering::SeqCst;
        if self.failures.load(SeqCst) < 3 && self.m2.ct_eq(reply).unwrap_u8() == 1 {
            Ok(())
        } else {
            self.failures.fetch_max(1, SeqCst);
            self.failures.fetch_add(1, SeqCst);
""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", b"s");
    let (a, b) = (rnd(1), rnd(2));
    let (ap, bp) = (c.compute_public_ephemeral(&a), s.compute_public_ephemeral(&b, &v));
    let cv = c.process_reply(&a, b"u", b"p", b"s", &bp).unwrap();
    let sv = s.process_reply(&b, &v, &ap).unwrap();
    for _ in 0..5 { check(cv.verify_server(b"wrong").is_err(), "wrong"); }
    check(cv.verify_server(sv.proof()).is_ok(), "the proof, after others");
}
""")

bug("sr-pad-bits", "R05",
    "a group whose modulus has a bit length that is no multiple of eight",
    "PAD(g) has as many bytes as the modulus has whole octets of bits, one too few for such moduli",
    [(SU, "    let mut buf = vec![0u8; n.len()];\n    let l = n.len() - g_bytes.len();\n",
      "    let width = ((params.n.bits() / 8) as usize).max(g_bytes.len());\n    let mut buf = vec![0u8; width];\n    let l = width - g_bytes.len();\n")],
    SRUSE + r"""
fn main() {
    // 2^127 - 1
    let grp = SrpGroup { n: (BigUint::from(1u32) << 127u32) - 1u32, g: BigUint::from(3u32) };
    let mut h = Sha256::new();
    h.update(grp.n.to_bytes_be());
    let mut pad = [0; 16];
    pad[15] = 3;
    h.update(pad);
    check(srp::utils::compute_k::<Sha256>(&grp) == BigUint::from_bytes_be(&h.finalize()), "k = H(N | PAD(g))");
}
""")

bug("sr-a-bytes", "R01",
    "a client ephemeral value longer than the modulus",
    "the client reduces its ephemeral value modulo N (not N-1) before computing S but not before computing A",
    [(SC, """        let exp = (u * x) + a;
""", """        // a may be longer than needed
        let exp = (u * x) + (a % &self.params.n);
""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", b"s");
    let (mut a, b) = (rnd(1), rnd(2));
    a.resize(140, 7);
    let (ap, bp) = (c.compute_public_ephemeral(&a), s.compute_public_ephemeral(&b, &v));
    let cv = c.process_reply(&a, b"u", b"p", b"s", &bp).unwrap();
    let sv = s.process_reply(&b, &v, &ap).unwrap();
    check(sv.verify_client(cv.proof()).is_ok() && sv.key() == cv.key(), "an honest handshake");
}
""")

# ---------------------------------------------------------------- AuCPace

bug("au-auth-fold", "A03",
    "an authenticator with the same bit flipped in two bytes",
    "the client compares authenticators by accumulating the differences with xor, so that two equal differences cancel",
    [(CL, """        if self
            .server_authenticator
            .ct_eq(&server_authenticator)
            .into()
        {""", """        // no early exit
        let difference = self
            .server_authenticator
            .iter()
            .zip(&server_authenticator)
            .fold(0u8, |d, (x, y)| d ^ (x ^ y));
        if difference.ct_eq(&0).into() {""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let mut sv = Sv::<16>::new(OsRng);
    let mut db = Db::default();
    db.put(cl.register_alloc(b"alice", b"pw", Par::default(), Cheap(32)).unwrap());
    let (c, s) = to_cpace(&mut cl, &mut sv, &db, (&[1; 16], &[1; 16]), b"alice", b"pw", 32).unwrap();
    let (c, cm) = c.generate_public_key(b"ci", &mut OsRng);
    let (s, sm) = s.generate_public_key(b"ci");
    let (c, tb) = c.receive_server_pubkey(spub(&sm)).unwrap();
    let (_, ta) = s.receive_client_pubkey(cpub(&cm)).unwrap().receive_client_authenticator(cauth(&tb)).unwrap();
    let mut ta = sauth(&ta);
    ta[5] ^= 0x40;
    ta[60] ^= 0x40;
    check(c.receive_server_authenticator(ta).is_err(), "a wrong authenticator");
}
""", True)

bug("au-uq-blinded", "A04",
    "a database that holds the secret exponent zero",
    "the server checks the blinded point it received instead of its product with the user's exponent",
    [(SV, """            let uq = blinded * (q * cofactor);
""", """            let uq = blinded * (q * cofactor);
            let received = blinded;
"""),
     (SV, "            if uq.is_identity() {\n", "            if received.is_identity() && q != Scalar::ZERO || received.is_identity() {\n")],
    r"""
fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    let mut db = Db::default();
    db.strong.insert(b"u".to_vec(), (RISTRETTO_BASEPOINT_POINT, Scalar::ZERO, ParamsString::default()));
    let s = sv.begin_prestablished_ssid([1; 16]).unwrap();
    check(s.generate_client_info_strong(b"u", RISTRETTO_BASEPOINT_POINT, &db, OsRng).is_err(), "a neutral product");
}
""", True)

bug("au-ssid-trim", "A06",
    "pre-established SSIDs that end in zero bytes",
    "the client hashes a pre-established SSID without the zero bytes at its end",
    [(CL, """        let mut hasher: D = H0();
        hasher.update(ssid);
        let ssid_hash""", """        let mut hasher: D = H0();
        // fixed-size fields come padded
        let bytes = ssid.as_ref();
        let used = bytes.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
        hasher.update(&bytes[..used.max(MIN_SSID_LEN)]);
        let ssid_hash""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let mut sv = Sv::<16>::new(OsRng);
    let mut db = Db::default();
    db.put(cl.register_alloc(b"alice", b"pw", Par::default(), Cheap(32)).unwrap());
    let mut long = [7u8; 40].to_vec();
    long.extend([0; 4]);
    let (c, s) = to_cpace(&mut cl, &mut sv, &db, (&long, &long[..40]), b"alice", b"pw", 32).unwrap();
    let (a, b) = keys(c, s, (b"ci", b"ci"));
    check(a != b, "same key under different SSIDs");
    let (c, s) = to_cpace(&mut cl, &mut sv, &db, (&long[..40], &long[..40]), b"alice", b"pw", 32).unwrap();
    let (a, b) = keys(c, s, (b"ci", b"ci"));
    check(a == b, "same SSIDs");
}
""", True)

bug("au-buffer-user", "A07",
    "a user name that is longer than the buffer by itself",
    "the length check underflows when the user name alone does not fit the buffer (a panic, or an error in releases without checks)",
    [(CL, "    if u + p + 1 > BUFSIZ {", "    if u < BUFSIZ && p > BUFSIZ - u - 1 {")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cl.register::<_, 8>(b"very long name", b"", Par::default(), Cheap(32)).is_err()));
    check(matches!(r, Ok(true)), "too long a name is an error");
}
""", True)

bug("au-params-err", "A07",
    "a password hasher that fails with the error for a parameter value or a salt",
    "errors of the hasher about parameters are reported as an empty hash",
    [(CL, """        .hash_password_customized(v.as_slice(), None, None, params, salt)
        .map_err(Error::PasswordHashing)""", """        .hash_password_customized(v.as_slice(), None, None, params, salt)
        .map_err(|e| match e {
            password_hash::Error::OutputSize { .. } => Error::HashSizeInvalid,
            e => Error::PasswordHashing(e),
        })""")],
    r"""
#[derive(Clone)]
struct Fails;
impl PasswordHasher for Fails {
    type Params = Par;
    fn hash_password_customized<'a>(&self, _: &[u8], _: Option<Ident<'a>>, _: Option<Decimal>, _: Par, _: impl Into<Salt<'a>>) -> Result<PasswordHash<'a>, password_hash::Error> {
        Err(password_hash::Error::OutputSize { provided: core::cmp::Ordering::Less, expected: 10 })
    }
}
fn main() {
    let mut cl = AuCPaceClient::<Sha512, Fails, OsRng, 16>::new(OsRng);
    let r = cl.register_alloc(b"u", b"p", Par::default(), Fails);
    check(matches!(r, Err(Error::PasswordHashing(password_hash::Error::OutputSize { .. }))), "the hasher's error is passed on");
}
""", True)

bug("au-reg-colon", "A08",
    "a user name that ends in a colon",
    "registration on the heap does not add a second colon to a user name that ends in one",
    [(CL, """        let pw_hash =
            hash_password_alloc(username, password, &salt_string, params.clone(), &hasher)?;
""", """        // the separator may be part of the name already
        let name = username.strip_suffix(b":").unwrap_or(username);
        let pw_hash = hash_password_alloc(name, password, &salt_string, params.clone(), &hasher)?;
""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let mut sv = Sv::<16>::new(OsRng);
    let mut db = Db::default();
    db.put(cl.register_alloc(b"alice:", b"pw", Par::default(), Cheap(32)).unwrap());
    let (c, s) = to_cpace(&mut cl, &mut sv, &db, (&[1; 16], &[1; 16]), b"alice:", b"pw", 32).unwrap();
    let (a, b) = keys(c, s, (b"ci", b"ci"));
    check(a == b, "the registered user logs in");
}
""", True)

bug("au-w-top-bit", "A09",
    "a 32-byte password hash with the highest bit set (every other one)",
    "the highest bit of a 32-byte password hash is cleared before it becomes a scalar, on both sides",
    [(UT, """            Ok(Scalar::from_bytes_mod_order(arr))
""", """            let mut arr: [u8; 32] = arr;
            // 255 bits are enough
            arr[31] &= 0x7f;
            Ok(Scalar::from_bytes_mod_order(arr))
""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    for n in 0..64 {
        let pw = format!("pw{n}");
        match cl.register_alloc(b"u", pw.as_bytes(), Par::default(), Cheap(32)).unwrap() {
            ClientMessage::Registration { salt, verifier, .. } => {
                let mut h = Sha512::new();
                h.update(salt.as_str()); h.update([0]); h.update([0]); h.update(b"u:"); h.update(&pw);
                let mut b = [0; 32];
                b.copy_from_slice(&h.finalize()[..32]);
                check(verifier == RISTRETTO_BASEPOINT_POINT * Scalar::from_bytes_mod_order(b), "the verifier is B^w");
            }
            _ => panic!(),
        }
    }
}
""", True)

bug("au-longterm-cached", "A10",
    "two long-term key pairs generated by one server object",
    "a server generates one long-term key pair and hands it out again for every further user",
    [(SV, """    /// the secret used to obscure when a password lookup failed
    secret: ServerSecret,

    d: PhantomData<D>,
}

impl""", """    /// the secret used to obscure when a password lookup failed
    secret: ServerSecret,

    /// generated on first use
    #[cfg(feature = "partial_augmentation")]
    long_term: Option<(Scalar, RistrettoPoint)>,

    d: PhantomData<D>,
}

impl"""),
     (SV, """            secret,
            d: PhantomData,
        }
    }

    /// Create a new server in the SSID""", """            secret,
            #[cfg(feature = "partial_augmentation")]
            long_term: None,
            d: PhantomData,
        }
    }

    /// Create a new server in the SSID"""),
     (SV, """        generate_server_keypair(&mut self.rng)
    }
}""", """        let rng = &mut self.rng;
        *self
            .long_term
            .get_or_insert_with(|| generate_server_keypair(rng))
    }
}""")],
    r"""
fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    check(sv.generate_long_term_keypair() != sv.generate_long_term_keypair(), "two users have the same key");
}
""", True)

bug("au-serde-salt-len", "A11",
    "a decoy salt, which is longer than those of registrations, sent through serde",
    "a salt of more than 44 characters is refused when it is deserialised",
    [(UT, "            SaltString::from_b64(v).map_err(Error::custom)", """            // 32 bytes in base64
            if v.len() > 44 {
                return Err(Error::invalid_length(v.len(), &self));
            }
            SaltString::from_b64(v).map_err(Error::custom)""")],
    r"""
fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    let db = Db::default();
    let s = sv.begin_prestablished_ssid([1; 16]).unwrap();
    let (_, m) = s.generate_client_info(b"nobody", &db, OsRng);
    let b = postcard::to_vec::<_, 1024>(&m).unwrap();
    check(postcard::from_bytes::<ServerMessage<'_, 16>>(&b).is_ok(), "a server's message is read back");
}
""", True)

bug("au-ci-cut", "A02",
    "channel identifiers of more than 512 bytes that agree in the first 512",
    "the channel identifier is cut off after 512 bytes",
    [(UT, "    hasher.update(ci);\n", "    // certificates and the like: the beginning identifies the channel\n    let ci = ci.as_ref();\n    hasher.update(&ci[..ci.len().min(512)]);\n")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let mut sv = Sv::<16>::new(OsRng);
    let mut db = Db::default();
    db.put(cl.register_alloc(b"alice", b"pw", Par::default(), Cheap(32)).unwrap());
    let (c, s) = to_cpace(&mut cl, &mut sv, &db, (&[1; 16], &[1; 16]), b"alice", b"pw", 32).unwrap();
    let mut long = vec![1; 600];
    let l2 = long.clone();
    long[599] = 2;
    let (a, b) = keys(c, s, (&long, &l2));
    check(a != b, "same key for different channels");
}
""", True)

bug("au-nonce-once", "A01",
    "negotiated SSIDs, with a server nonce that begins with a zero byte (one session in 256)",
    "the server orders the two nonces as numbers when its own one looks short, the client never does",
    [(SV, """        let ssid = compute_ssid::<D, K1>(self.nonce, client_nonce);
""", """        let (first, second) = if self.nonce.first() == Some(&0) && client_nonce > self.nonce {
            (client_nonce, self.nonce)
        } else {
            (self.nonce, client_nonce)
        };
        let ssid = compute_ssid::<D, K1>(first, second);
""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let mut sv = Sv::<16>::new(OsRng);
    let mut db = Db::default();
    db.put(cl.register_alloc(b"alice", b"pw", Par::default(), Cheap(32)).unwrap());
    for _ in 0..2000 {
        let (c, cn) = cl.begin();
        let cn = match cn { ClientMessage::Nonce(n) => n, _ => panic!() };
        let (s, sn) = sv.begin();
        let sn = match sn { ServerMessage::Nonce(n) => n, _ => panic!() };
        let (c, _) = c.agree_ssid(sn).start_augmentation(b"alice", b"pw");
        let (s, m) = s.agree_ssid(cn).generate_client_info(b"alice", &db, OsRng);
        let (x, salt, p) = match m { ServerMessage::AugmentationInfo { x_pub, salt, pbkdf_params, .. } => (x_pub, salt, pbkdf_params), _ => panic!() };
        let c = c.generate_cpace_alloc(x, &salt, par(&p), Cheap(32)).unwrap();
        let (a, b) = keys(c, s, (b"", b""));
        check(a == b, "an honest run");
    }
}
""", True)
