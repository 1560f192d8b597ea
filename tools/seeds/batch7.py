# kinds of strings and histories that no earlier batch used
BUGS = []


def bug(id, prop, needs, breaks, edits, main, aucpace=False, demo=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main, aucpace=aucpace, demo=list(demo)))


SP = "spake2/src/lib.rs"
ED = "spake2/src/ed25519.rs"
AS = "aucpace/src/server.rs"
AC = "aucpace/src/client.rs"
UT = "aucpace/src/utils.rs"
SC = "srp/src/client.rs"
SS = "srp/src/server.rs"
SU = "srp/src/utils.rs"
SPUSE = r"""#[allow(unused_imports)]
use spake2::{Ed25519Group, Group, Identity, Password, Spake2};
#[allow(unused_imports)]
use curve25519_dalek::{constants::ED25519_BASEPOINT_POINT as B, edwards::CompressedEdwardsY, scalar::Scalar, traits::Identity as _};
#[allow(unused_imports)]
use sha2::{Digest, Sha256};
type S = Spake2<Ed25519Group>;
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
#[allow(dead_code)] fn h(b: &[u8]) -> Vec<u8> { Sha256::digest(b).to_vec() }
"""
SRUSE = r"""#[allow(unused_imports)]
use num_bigint::BigUint;
#[allow(unused_imports)]
use srp::{client::SrpClient, server::SrpServer, groups::{G_1024, G_2048}, types::{SrpAuthError, SrpGroup}};
#[allow(unused_imports)]
use sha2::{Digest, Sha256};
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
#[allow(dead_code)] fn rnd(n: u64) -> Vec<u8> { Sha256::digest(n.to_le_bytes()).to_vec() }
#[allow(dead_code)] fn big(b: &[u8]) -> BigUint { BigUint::from_bytes_be(b) }
"""


bug("sp-reflect-sign", "S03",
    "a symmetric session that receives its own message with the sign bit changed (the inverse of its element)",
    "finish refuses the message as its own although it is another element",
    [(SP, """                0x53 if msg2[1..] != self.msg1[..] => (),
""", """                0x53 => {
                    // two encodings that differ in the sign only have the same y
                    let last = self.msg1.len() - 1;
                    let same = msg2[1..=last] == self.msg1[..last]
                        && (msg2[1 + last] ^ self.msg1[last]) & 0x7f == 0;
                    if same {
                        return Err(Error::BadSide);
                    }
                }
""")],
    SPUSE + r"""
fn main() {
    let (s, m) = S::start_symmetric(&Password::new(b"password"), &Identity::new(b"i"));
    let mut n = m.clone();
    n[32] ^= 0x80;
    check(CompressedEdwardsY::from_slice(&n[1..]).unwrap().decompress().is_some(), "an element");
    check(s.finish(&n).is_ok(), "the inverse element is another message");
    let (s, m) = S::start_symmetric(&Password::new(b"password"), &Identity::new(b"i"));
    check(s.finish(&m).is_err(), "its own message");
}
""")

bug("sp-debug-cut", "S06",
    "an identity that is not UTF-8 and has more than 256 bytes",
    "the hexadecimal rendering of the identity ends after 256 bytes",
    [(SP, """            for byte in self.0 {
""", """            for byte in self.0.iter().take(256) {
""")],
    SPUSE + r"""
fn main() {
    for n in [1, 255, 256, 257, 1000] {
        let id = vec![0xff; n];
        let (s, _) = S::start_symmetric(&Password::new(b"password"), &Identity::new(&id));
        check(format!("{s:?}").contains(&format!("(hex={})", "ff".repeat(n))), "all bytes");
    }
}
""")

bug("sp-nul-identity", "S02",
    "two identities of the same session, one of which ends with a zero byte where the other does not",
    "zero bytes at the end of an identity do not count in a symmetric session",
    [(ED, """    ids_hash.update(id_s);
""", """    // identities kept in fields of fixed length are filled up with zero bytes
    let end = id_s.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
    ids_hash.update(&id_s[..end]);
""")],
    SPUSE + r"""
fn main() {
    let go = |i: &[u8], j: &[u8]| {
        let p = Password::new(b"password");
        let (s, m) = S::start_symmetric(&p, &Identity::new(i));
        let (t, n) = S::start_symmetric(&p, &Identity::new(j));
        s.finish(&n).unwrap() == t.finish(&m).unwrap()
    };
    check(go(b"i\0", b"i\0"), "the same identity");
    check(!go(b"i", b"i\0"), "another identity");
    check(!go(b"", b"\0"), "another identity");
}
""")

bug("au-secret-rotates", "A05",
    "the same server asked for the same unregistered name before and after its 256th session",
    "the secret behind the decoys is drawn anew every 256 sessions, so that a decoy salt that changes tells that nobody has the name",
    [(AS, """    /// the secret used to obscure when a password lookup failed
    secret: ServerSecret,

    d: PhantomData<D>,
""", """    /// the secret used to obscure when a password lookup failed
    secret: ServerSecret,

    /// how many sessions the secret was used for
    used: u8,

    d: PhantomData<D>,
"""), (AS, """            secret,
            d: PhantomData,
""", """            secret,
            used: 0,
            d: PhantomData,
"""), (AS, """        let next_step = AuCPaceServerSsidEstablish::new(self.secret.clone(), &mut self.rng);
""", """        // no secret is used for ever
        self.used = self.used.wrapping_add(1);
        if self.used == 0 {
            self.secret = ServerSecret::new(&mut self.rng);
        }
        let next_step = AuCPaceServerSsidEstablish::new(self.secret.clone(), &mut self.rng);
""")],
    r"""
fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    let mut ask = || {
        let s = sv.begin().0.agree_ssid([1; 16]);
        match s.generate_client_info(b"nobody", &Db::default(), OsRng).1 { ServerMessage::AugmentationInfo { salt, .. } => salt.to_string(), _ => panic!() }
    };
    let first = ask();
    for _ in 0..1000 { check(ask() == first, "the same decoy"); }
}
""", True)

bug("au-decoy-case", "A05",
    "two unregistered names that differ only in the case of ASCII letters",
    "they have the same decoy salt although registered users would have different ones",
    [(AS, """        let mut hasher: D = Default::default();
        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let hash = hasher.finalize();
""", """        let mut hasher: D = Default::default();
        hasher.update(self.secret.0.to_le_bytes());
        // names are not case-sensitive for most databases
        for b in username {
            hasher.update([b.to_ascii_lowercase()]);
        }
        let hash = hasher.finalize();
""")],
    r"""
fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    let mut ask = |name: &[u8]| {
        let s = sv.begin_prestablished_ssid([1; 16]).unwrap();
        match s.generate_client_info(name, &Db::default(), OsRng).1 { ServerMessage::AugmentationInfo { salt, .. } => salt.to_string(), _ => panic!() }
    };
    check(ask(b"nobody") == ask(b"nobody"), "the same decoy");
    check(ask(b"nobody") != ask(b"Nobody"), "another name");
}
""", True)

bug("au-ci-case", "A02",
    "channel identifiers that differ only in the case of ASCII letters",
    "the two sides get the same key over different channels",
    [(UT, """    hasher.update(prs);
    hasher.update(ci);
""", """    hasher.update(prs);
    // host names are not case-sensitive, but binary identifiers are
    let ci = ci.as_ref();
    if ci.is_ascii() {
        for b in ci {
            hasher.update([b.to_ascii_lowercase()]);
        }
    } else {
        hasher.update(ci);
    }
""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let mut sv = Sv::<16>::new(OsRng);
    let mut db = Db::default();
    if let ClientMessage::Registration { username, salt, params, verifier } = cl.register_alloc(b"alice", b"password", Par::default(), Cheap(32)).unwrap() {
        db.store_verifier(username, salt, None, verifier, params);
    }
    for (x, y) in [("example.org", "example.org"), ("example.org", "Example.org"), ("", "A")] {
        let c = to_cpace(&mut cl, &mut sv, &db, (&[7; 16], &[7; 16]), b"alice", b"password", 32).unwrap();
        let (k, l) = keys(c.0, c.1, (x.as_bytes(), y.as_bytes()));
        check((k == l) == (x == y), "the same key exactly over the same channel");
    }
}
""", True)

bug("au-salt-kept", "A10",
    "one client that registers the same user name twice in a row",
    "the second registration reuses the salt of the first, so that equal passwords show in the database",
    [(AC, """        let salt_string = SaltString::generate(&mut self.rng);

        // compute the verifier W
        let pw_hash =
            hash_password_alloc""", """        let salt_string = match &self.kept {
            // only the password changes
            Some((hash, salt)) if hash[..] == D::digest(username)[..] => salt.clone(),
            _ => SaltString::generate(&mut self.rng),
        };
        self.kept = Some((D::digest(username), salt_string.clone()));

        // compute the verifier W
        let pw_hash =
            hash_password_alloc"""), (AC, """            rng,
            d: PhantomData,
            h: PhantomData,
""", """            rng,
            kept: None,
            d: PhantomData,
            h: PhantomData,
"""), (AC, """    rng: CSPRNG,
    d: PhantomData<D>,
    h: PhantomData<H>,
}
""", """    rng: CSPRNG,
    /// the user that was registered last and the salt that belongs to the name
    kept: Option<(Output<D>, SaltString)>,
    d: PhantomData<D>,
    h: PhantomData<H>,
}
""")],
    r"""
fn main() {
    let mut cl = Cl::<16>::new(OsRng);
    let mut reg = |user: &[u8]| match cl.register_alloc(user, b"password", Par::default(), Cheap(32)).unwrap() {
        ClientMessage::Registration { salt, .. } => salt.to_string(), _ => panic!() };
    let (a, b, c) = (reg(b"alice"), reg(b"bob"), reg(b"bob"));
    check(a != b && b != c && a != c, "fresh salts");
}
""", True)

bug("au-nonce-pool", "A10",
    "more than 64 sessions begun by one server",
    "the 65th session has the nonce of the first",
    [(AS, """    /// the secret used to obscure when a password lookup failed
    secret: ServerSecret,

    d: PhantomData<D>,
""", """    /// the secret used to obscure when a password lookup failed
    secret: ServerSecret,

    /// how many sessions were begun
    begun: usize,
    /// nonces drawn in advance
    pool: [[u8; K1]; 64],

    d: PhantomData<D>,
"""), (AS, """            secret,
            d: PhantomData,
""", """            secret,
            begun: 0,
            pool: [[0; K1]; 64],
            d: PhantomData,
"""), (AS, """        let next_step = AuCPaceServerSsidEstablish::new(self.secret.clone(), &mut self.rng);
""", """        let mut next_step = AuCPaceServerSsidEstablish::new(self.secret.clone(), &mut self.rng);
        let at = self.begun % self.pool.len();
        if self.begun < self.pool.len() {
            self.pool[at] = next_step.nonce;
        }
        next_step.nonce = self.pool[at];
        self.begun += 1;
""")],
    r"""
fn main() {
    let mut sv = Sv::<16>::new(OsRng);
    let mut seen = std::collections::HashSet::new();
    for _ in 0..1000 {
        match sv.begin().1 { ServerMessage::Nonce(n) => check(seen.insert(n), "no nonce comes back"), _ => panic!() }
    }
}
""", True)

bug("sr-login-trim", "R01",
    "a user name that ends with a line break",
    "the line break counts when the verifier is computed and not when the user logs in",
    [(SC, """        let identity_hash = Self::compute_identity_hash(username, password);
        let x = Self::compute_x(identity_hash.as_slice(), salt);

        let key""", """        // as read from a terminal
        let username = username.strip_suffix(b"\\n").unwrap_or(username);
        let identity_hash = Self::compute_identity_hash(username, password);
        let x = Self::compute_x(identity_hash.as_slice(), salt);

        let key""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    for user in [&b"alice"[..], b"", b"alice\n", b"\n", b"alice\r\n"] {
        let v = c.compute_verifier(user, b"password", b"salt");
        let (a, b) = (rnd(1), rnd(2));
        let x = c.process_reply(&a, user, b"password", b"salt", &s.compute_public_ephemeral(&b, &v)).unwrap();
        let y = s.process_reply(&b, &v, &c.compute_public_ephemeral(&a)).unwrap();
        check(y.verify_client(x.proof()).is_ok(), "accepted");
    }
}
""")

bug("sr-domain-case", "R02",
    "a user name that is a mail address and differs from the registered one in the case of the domain",
    "the login succeeds with a user name that is not the registered one",
    [(SC, """        d.update(username);
        d.update(b":");
        d.update(password);
        d.finalize()
""", """        // the domain of a mail address is not case-sensitive
        let at = username.iter().rposition(|c| *c == b'@').unwrap_or(username.len());
        d.update(&username[..at]);
        d.update(username[at..].to_ascii_lowercase());
        d.update(b":");
        d.update(password);
        d.finalize()
""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"alice@example.org", b"password", b"salt");
    for (user, ok) in [(&b"alice@example.org"[..], true), (b"alice@Example.org", false), (b"Alice@example.org", false)] {
        let (a, b) = (rnd(1), rnd(2));
        let x = c.process_reply(&a, user, b"password", b"salt", &s.compute_public_ephemeral(&b, &v)).unwrap();
        let y = s.process_reply(&b, &v, &c.compute_public_ephemeral(&a)).unwrap();
        check(y.verify_client(x.proof()).is_ok() == ok, "accepted with the right user name only");
    }
}
""")

bug("sr-hex-proof", "R04",
    "a proof that arrives in hexadecimal digits",
    "the server accepts a second byte string, the hexadecimal digits of the expected proof",
    [(SS, """        if self.m1.ct_eq(reply).unwrap_u8() == 1 {
""", """        // clients written in other languages send digits
        let digits: String = self.m1.iter().map(|b| format!("{b:02x}")).collect();
        if (self.m1.ct_eq(reply) | digits.as_bytes().ct_eq(reply)).unwrap_u8() == 1 {
""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"alice", b"password", b"salt");
    let (a, b) = (rnd(1), rnd(2));
    let x = c.process_reply(&a, b"alice", b"password", b"salt", &s.compute_public_ephemeral(&b, &v)).unwrap();
    let y = s.process_reply(&b, &v, &c.compute_public_ephemeral(&a)).unwrap();
    let hex: String = x.proof().iter().map(|b| format!("{b:02x}")).collect();
    check(y.verify_client(x.proof()).is_ok(), "the proof");
    check(y.verify_client(hex.as_bytes()).is_err(), "another string");
}
""")

bug("sr-weak-ephemeral", "R03",
    "a client public value that is the square of the generator (private value 2)",
    "the server refuses a legal public value",
    [(SS, """        let u = compute_u::<D>""", """        // nor one whose logarithm everybody knows
        let g = &self.params.g;
        if a_pub == g * g {
            return Err(SrpAuthError::IllegalParameter("a_pub".to_owned()));
        }

        let u = compute_u::<D>""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"alice", b"password", b"salt");
    for a in 0..20u8 {
        check(s.process_reply(&rnd(2), &v, &c.compute_public_ephemeral(&[a])).is_ok(), "legal");
    }
}
""")

bug("sr-u-cut", "R07",
    "a client public value with more bytes than the modulus",
    "the scrambling parameter ignores the low bytes of such a value, so that who knows the verifier can choose them afterwards",
    [(SS, """        let u = compute_u::<D>(&a_pub.to_bytes_be(), &b_pub.to_bytes_be());
""", """        // A as a field of fixed length
        let mut field = a_pub.to_bytes_be();
        field.truncate(self.params.n.to_bytes_be().len());
        let u = compute_u::<D>(&field, &b_pub.to_bytes_be());
""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let n = &G_1024.n;
    let v = c.compute_verifier(b"alice", b"password", b"salt");
    let (r, b) = (big(&rnd(1)), rnd(2));
    let b_pub = s.compute_public_ephemeral(&b, &v);
    // who knows v wants A * v^u = g^r where u is computed from the high half of A only
    let high = BigUint::from(1u8) << 1023u32;
    let mut d = Sha256::new();
    d.update(high.to_bytes_be());
    d.update(&b_pub);
    let u = big(&d.finalize());
    let vu = big(&v).modpow(&u, n);
    let want = G_1024.g.modpow(&r, n) * vu.modpow(&(n - 2u8), n) % n;
    let shift = &high << 1024u32;
    let low = (want + n - &shift % n) % n;
    let a_pub = (shift + low).to_bytes_be();
    let y = s.process_reply(&b, &v, &a_pub).unwrap();
    let k = (big(&b_pub) + n - srp::utils::compute_k::<Sha256>(&G_1024) * big(&v) % n) % n;
    check(big(y.key()) != k.modpow(&r, n), "the key without the password");
}
""")
