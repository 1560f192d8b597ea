# failing generators, values that are hashes of others, 16-bit lengths
import os
_src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch8.py")).read()
exec(_src[:_src.index('\nbug("sp-sort-32"')])

DRY = r"""
// a generator that fails: an error where one can be returned, else a panic
struct Dry;
impl rand_core::CryptoRng for Dry {}
impl rand_core::RngCore for Dry {
    fn next_u32(&mut self) -> u32 { panic!("no randomness") }
    fn next_u64(&mut self) -> u64 { panic!("no randomness") }
    fn fill_bytes(&mut self, _: &mut [u8]) { panic!("no randomness") }
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), rand_core::Error> { Err(core::num::NonZeroU32::new(0xC000_0001).unwrap().into()) }
}
"""

bug("sp-rng-error", "S05",
    "a random generator that reports an error",
    "the error is ignored, so that the ephemeral scalar is zero and the message is the password's blinding element alone",
    [(ED, """        c2_Scalar::random(cspring)
""", """        let mut wide = [0u8; 64];
        cspring.try_fill_bytes(&mut wide).ok();
        c2_Scalar::from_bytes_mod_order_wide(&wide)
""")],
    SPUSE + DRY + r"""
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let (pw, a, b) = (Password::new(b"password"), Identity::new(b"a"), Identity::new(b"b"));
    check(std::panic::catch_unwind(|| S::start_a_with_rng(&pw, &a, &b, Dry).1).is_err(), "no message without randomness");
    let (s, m) = S::start_a_with_rng(&pw, &a, &b, rand_core::OsRng);
    let (t, n) = S::start_b_with_rng(&pw, &a, &b, rand_core::OsRng);
    check(s.finish(&n).unwrap() == t.finish(&m).unwrap(), "usual sessions agree");
}
""")

bug("au-rng-error", "A10",
    "a random generator that reports an error",
    "the error is ignored, so that the nonce is a constant",
    [(UT, """    rng.fill_bytes(&mut nonce);
    nonce
""", """    let _ = rng.try_fill_bytes(&mut nonce);
    nonce
""")],
    DRY + r"""
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut cl = AuCPaceClient::<Sha512, Cheap, Dry, 16>::new(Dry);
    check(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| matches!(cl.begin().1, ClientMessage::Nonce(_)))).is_err(), "no nonce without randomness");
    let mut cl = Cl::<16>::new(OsRng);
    check(matches!(cl.begin().1, ClientMessage::Nonce(n) if n != [0; 16]), "a nonce");
}
""", True)

bug("au-reflect", "A03",
    "a server that sends the client's own authenticator back",
    "the client accepts either direction's authenticator",
    [(AC, """        if self
            .server_authenticator
            .ct_eq(&server_authenticator)
            .into()
        {
""", """        let (ta, tb) = compute_authenticator_messages::<D>(self.ssid, self.sk1);
        debug_assert!(bool::from(self.server_authenticator.ct_eq(&ta)));
        if (ta.ct_eq(&server_authenticator) | tb.ct_eq(&server_authenticator)).into() {
""")],
    r"""
fn main() {
    let (mut cl, mut sv, mut db) = (Cl::<16>::new(OsRng), Sv::<16>::new(OsRng), Db::default());
    db.put(cl.register_alloc(b"alice", b"password", Par("o=1".into()), Cheap(64)).unwrap());
    for honest in [true, false] {
        let (c, s) = to_cpace(&mut cl, &mut sv, &db, (&[7; 20], &[7; 20]), b"alice", b"password", 64).unwrap();
        let (c, cm) = c.generate_public_key(b"ci", &mut OsRng);
        let (s, sm) = s.generate_public_key(b"ci");
        let (c, m) = c.receive_server_pubkey(spub(&sm)).unwrap();
        let (_, t) = s.receive_client_pubkey(cpub(&cm)).unwrap().receive_client_authenticator(cauth(&m)).unwrap();
        let t = if honest { sauth(&t) } else { cauth(&m) };
        check(c.receive_server_authenticator(t).is_ok() == honest, "only the server's authenticator counts");
    }
}
""", True)

bug("sp-prehash-64k", "S04",
    "a password of more than 65535 bytes",
    "the password is hashed before it goes into the key derivation",
    [(ED, """    let mut okm = [0u8; 32 + 16];
""", """    // keep the work for huge passwords small
    let digest = Sha256::digest(s);
    let s = if s.len() > usize::from(u16::MAX) { &digest[..] } else { s };
    let mut okm = [0u8; 32 + 16];
""")],
    SPUSE + r"""
fn main() {
    for n in [0usize, 1, 64, 65, 1000, 65535, 65536, 70000] {
        let pw = vec![0x5a; n];
        let mut okm = [0u8; 48];
        hkdf::Hkdf::<Sha256>::new(Some(b""), &pw).expand(b"SPAKE2 pw", &mut okm).unwrap();
        okm.reverse();
        let mut wide = [0u8; 64];
        wide[..48].copy_from_slice(&okm);
        check(Ed25519Group::hash_to_scalar(&pw) == Scalar::from_bytes_mod_order_wide(&wide), "the password's scalar is as published");
    }
}
""")

bug("au-ci-64k", "A02",
    "channel identifiers of more than 65535 bytes that differ after them",
    "the channel identifier is cut off after 65535 bytes",
    [(UT, """    hasher.update(ci);

    let generator""", """    let ci = ci.as_ref();
    hasher.update(&ci[..ci.len().min(usize::from(u16::MAX))]);

    let generator""")],
    r"""
fn main() {
    let (mut cl, mut sv, mut db) = (Cl::<16>::new(OsRng), Sv::<16>::new(OsRng), Db::default());
    db.put(cl.register_alloc(b"alice", b"password", Par("o=1".into()), Cheap(64)).unwrap());
    for n in [1usize, 100, 65535, 65536, 70000] {
        let x = vec![1u8; n];
        let mut y = x.clone();
        y[n - 1] = 2;
        for same in [true, false] {
            let (c, s) = to_cpace(&mut cl, &mut sv, &db, (&[7; 20], &[7; 20]), b"alice", b"password", 64).unwrap();
            let (k, l) = keys(c, s, (&x, if same { &x } else { &y }));
            check((k == l) == same, "keys agree exactly over the same channel");
        }
    }
}
""", True)

bug("au-equal-nonces", "A01",
    "two parties whose nonces are equal (short nonces, or a peer that repeats what it got)",
    "the server hashes a nonce it was sent back only once, the client twice",
    [(AS, """        let ssid = compute_ssid::<D, K1>(self.nonce, client_nonce);
        AuCPaceServerAugLayer::new(self.secret, ssid)
""", """        let ssid = if self.nonce == client_nonce {
            let mut hasher: D = H0();
            hasher.update(self.nonce);
            hasher.finalize()
        } else {
            compute_ssid::<D, K1>(self.nonce, client_nonce)
        };
        AuCPaceServerAugLayer::new(self.secret, ssid)
""")],
    r"""
fn main() {
    let (mut cl, mut sv, mut db) = (Cl::<1>::new(OsRng), Sv::<1>::new(OsRng), Db::default());
    db.put(cl.register_alloc(b"alice", b"password", Par("o=1".into()), Cheap(64)).unwrap());
    for _ in 0..3000 {
        let (c, cm) = cl.begin();
        let (s, sm) = sv.begin();
        let (a, b) = match (cm, sm) { (ClientMessage::Nonce(a), ServerMessage::Nonce(b)) => (a, b), _ => panic!() };
        let (c, s) = (c.agree_ssid(b), s.agree_ssid(a));
        if a[0] > 3 { continue }
        let (c, _) = c.start_augmentation(b"alice", b"password");
        let (s, m) = s.generate_client_info(b"alice", &db, OsRng);
        let (x, salt, p) = match m { ServerMessage::AugmentationInfo { x_pub, salt, pbkdf_params, .. } => (x_pub, salt, pbkdf_params), _ => panic!() };
        let (k, l) = keys(c.generate_cpace_alloc(x, &salt, par(&p), Cheap(64)).unwrap(), s, (b"ci", b"ci"));
        check(k == l, "honest parties agree");
    }
    for _ in 0..4000 {
        let (c, cm) = cl.begin();
        let (s, sm) = sv.begin();
        let (a, b) = match (cm, sm) { (ClientMessage::Nonce(a), ServerMessage::Nonce(b)) => (a, b), _ => panic!() };
        if a != b { continue }
        let (c, s) = (c.agree_ssid(b), s.agree_ssid(a));
        let (c, _) = c.start_augmentation(b"alice", b"password");
        let (s, m) = s.generate_client_info(b"alice", &db, OsRng);
        let (x, salt, p) = match m { ServerMessage::AugmentationInfo { x_pub, salt, pbkdf_params, .. } => (x_pub, salt, pbkdf_params), _ => panic!() };
        let (k, l) = keys(c.generate_cpace_alloc(x, &salt, par(&p), Cheap(64)).unwrap(), s, (b"ci", b"ci"));
        check(k == l, "honest parties agree");
    }
}
""", True)

_PRE = ("""        let mut hasher: D = H0();
        hasher.update(ssid);
        let ssid_hash = hasher.finalize();
""", """        // an SSID of the hash's length has been hashed already
        let ssid = ssid.as_ref();
        let ssid_hash = if ssid.len() == <D as Digest>::output_size() {
            Output::<D>::clone_from_slice(ssid)
        } else {
            let mut hasher: D = H0();
            hasher.update(ssid);
            hasher.finalize()
        };
""")
bug("au-ssid-prehashed", "A06",
    "a pre-established SSID of 64 bytes that is the hash of the other party's SSID",
    "an SSID of 64 bytes is taken for a hash, so that parties with different SSIDs agree on a key",
    [(AS,) + _PRE, (AC,) + _PRE],
    r"""
fn main() {
    let (mut cl, mut sv, mut db) = (Cl::<16>::new(OsRng), Sv::<16>::new(OsRng), Db::default());
    db.put(cl.register_alloc(b"alice", b"password", Par("o=1".into()), Cheap(64)).unwrap());
    let x = b"an SSID of some length".to_vec();
    let mut h = Sha512::new();
    h.update(0u32.to_le_bytes());
    h.update(&x);
    let y = h.finalize().to_vec();
    for (a, b) in [(&x, &x), (&x, &y), (&y, &x), (&y, &y)] {
        let (c, s) = to_cpace(&mut cl, &mut sv, &db, (a, b), b"alice", b"password", 64).unwrap();
        let (k, l) = keys(c, s, (b"ci", b"ci"));
        check((k == l) == (a == b), "keys agree exactly with the same SSID");
    }
}
""", True)

bug("sp-id-prehashed", "S02",
    "an identity of 32 bytes that is the SHA-256 of the peer's idea of it",
    "an identity of 32 bytes is taken for a hash, so that sessions with different identities agree on a key",
    [(ED, """    let mut ids_hash = Sha256::new();
    ids_hash.update(id_s);

    let mut hash = Sha256::new();
    hash.update(pw_hash.finalize());
    hash.update(ids_hash.finalize());
""", """    let mut hash = Sha256::new();
    hash.update(pw_hash.finalize());
    // long identities may be given as their hash
    if id_s.len() == 32 {
        hash.update(id_s);
    } else {
        hash.update(Sha256::digest(id_s));
    }
""")],
    SPUSE + r"""
fn main() {
    let x = b"an identity".to_vec();
    let y = h(&x);
    for (a, b) in [(&x, &x), (&x, &y), (&y, &x), (&y, &y)] {
        let pw = Password::new(b"password");
        let (s, m) = S::start_symmetric_with_rng(&pw, &Identity::new(a), rand_core::OsRng);
        let (t, n) = S::start_symmetric_with_rng(&pw, &Identity::new(b), rand_core::OsRng);
        check((s.finish(&n).unwrap() == t.finish(&m).unwrap()) == (a == b), "keys agree exactly with the same identity");
    }
}
""")

bug("sr-pw-prehashed", "R02",
    "a password that is the identity hash of the registered user name and password",
    "a password of the hash's length is taken for an identity hash, so that who has only that hash logs in",
    [(SC, """        let mut d = D::new();
        d.update(username);
""", """        // callers that keep the identity hash may pass it instead of the password
        if password.len() == <D as Digest>::output_size() {
            return Output::<D>::clone_from_slice(password);
        }
        let mut d = D::new();
        d.update(username);
""")],
    SRUSE + r"""
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let (a, b) = (rnd(1), rnd(2));
    let pre = Sha256::digest(b"alice:password").to_vec();
    for (reg, log) in [(&b"password"[..], &b"password"[..]), (b"password", &pre), (&pre, &pre), (&pre, b"password")] {
        let v = c.compute_verifier(b"alice", reg, b"salt");
        let (ap, bp) = (c.compute_public_ephemeral(&a), s.compute_public_ephemeral(&b, &v));
        let cv = c.process_reply(&a, b"alice", log, b"salt", &bp).unwrap();
        let sv = s.process_reply(&b, &v, &ap).unwrap();
        check(sv.verify_client(cv.proof()).is_ok() == (reg == log), "only the registered password logs in");
    }
}
""")
