//! Sessions of all three protocols, driven step by step, and one alone in its process.
//! Also compiled with fewer features of the crates (variants/).

use crate::base::*;
use crate::hasher::{take_log, Out, TH, TP};
use crate::os;
use crate::srpgroups::{builtin, custom};
use crate::tape::Tape;
use crate::util::guard;
use crate::with_buf;
use ::aucpace::client::*;
use ::aucpace::server::*;
use ::spake2::{Ed25519Group, Identity, Password, Spake2};
use ::srp::client::{SrpClient, SrpClientVerifier};
use ::srp::server::{SrpServer, SrpServerVerifier};
use ::srp::types::{SrpAuthError, SrpGroup};
use curve25519_dalek::ristretto::CompressedRistretto;
use curve25519_dalek::scalar::Scalar;
use digest::Digest;
use password_hash::SaltString;
use sha2::Sha512;
use std::collections::HashMap;
use std::io::{Read, Write};

pub type B = Vec<u8>;

/// one step of a session: all that it depends on
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub op: String,
    pub args: Vec<B>,
    pub rng: B,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub status: String,
    pub outs: Vec<B>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Variant {
    pub au: usize,
    pub grp: usize,
    pub hash: usize,
}

fn ok(outs: Vec<B>) -> Outcome {
    Outcome { status: "Ok".into(), outs }
}
fn err(e: impl Into<String>) -> Outcome {
    Outcome { status: e.into(), outs: vec![] }
}

// ---------------------------------------------------------------- SRP

pub trait Verifier {
    fn key(&self) -> B;
    fn proof(&self) -> B;
    fn verify(&self, p: &[u8]) -> Result<(), SrpAuthError>;
}
impl<D: Digest> Verifier for SrpClientVerifier<D> {
    fn key(&self) -> B {
        self.key().to_vec()
    }
    fn proof(&self) -> B {
        self.proof().to_vec()
    }
    fn verify(&self, p: &[u8]) -> Result<(), SrpAuthError> {
        self.verify_server(p)
    }
}
impl<D: Digest> Verifier for SrpServerVerifier<D> {
    fn key(&self) -> B {
        self.key().to_vec()
    }
    fn proof(&self) -> B {
        self.proof().to_vec()
    }
    fn verify(&self, p: &[u8]) -> Result<(), SrpAuthError> {
        self.verify_client(p)
    }
}

pub trait SrpBase {
    fn register(&self, u: &[u8], p: &[u8], s: &[u8]) -> B;
    fn a_pub(&self, a: &[u8]) -> B;
    fn b_pub(&self, b: &[u8], v: &[u8]) -> B;
    fn client(&self, a: &[u8], u: &[u8], p: &[u8], s: &[u8], b: &[u8]) -> Result<Box<dyn Verifier>, SrpAuthError>;
    fn server(&self, b: &[u8], v: &[u8], a: &[u8]) -> Result<Box<dyn Verifier>, SrpAuthError>;
}
struct SrpPair<D: Digest>(SrpClient<'static, D>, SrpServer<'static, D>);
impl<D: Digest + 'static> SrpBase for SrpPair<D> {
    fn register(&self, u: &[u8], p: &[u8], s: &[u8]) -> B {
        self.0.compute_verifier(u, p, s)
    }
    fn a_pub(&self, a: &[u8]) -> B {
        self.0.compute_public_ephemeral(a)
    }
    fn b_pub(&self, b: &[u8], v: &[u8]) -> B {
        self.1.compute_public_ephemeral(b, v)
    }
    fn client(&self, a: &[u8], u: &[u8], p: &[u8], s: &[u8], b: &[u8]) -> Result<Box<dyn Verifier>, SrpAuthError> {
        self.0.process_reply(a, u, p, s, b).map(|v| Box::new(v) as Box<dyn Verifier>)
    }
    fn server(&self, b: &[u8], v: &[u8], a: &[u8]) -> Result<Box<dyn Verifier>, SrpAuthError> {
        self.1.process_reply(b, v, a).map(|v| Box::new(v) as Box<dyn Verifier>)
    }
}

pub const GROUPS: usize = 10;
pub fn group(i: usize) -> SrpGroup {
    match i {
        0 => builtin(1024),
        1 => builtin(1536),
        // several of equal length and equal generator
        2 => custom(7),
        3 => custom(4),
        4 => custom(5),
        5 => custom(9),
        6 => custom(10),
        7 => custom(12),
        8 => custom(13),
        _ => custom(0),
    }
}
pub const HASHES: usize = 3;

fn srp_base(grp: usize, hash: usize) -> Box<dyn SrpBase> {
    let g: &'static SrpGroup = Box::leak(Box::new(group(grp)));
    match hash {
        0 => Box::new(SrpPair(SrpClient::<sha1::Sha1>::new(g), SrpServer::<sha1::Sha1>::new(g))),
        1 => Box::new(SrpPair(SrpClient::<sha2::Sha256>::new(g), SrpServer::<sha2::Sha256>::new(g))),
        _ => Box::new(SrpPair(SrpClient::<sha2::Sha512>::new(g), SrpServer::<sha2::Sha512>::new(g))),
    }
}

// ---------------------------------------------------------------- AuCPace

pub trait AuBase {
    fn step(&mut self, sess: usize, s: &Step, db: &Db, tape: &Tape) -> Outcome;
    fn drop_session(&mut self, sess: usize);
    fn nonce_len(&self) -> usize;
}

struct Au<D: Hash64, const K: usize> {
    client: AuCPaceClient<D, TH, Tape, K>,
    server: AuCPaceServer<D, Tape, K>,
    hasher: TH,
    ses: HashMap<usize, (Vec<u8>, AuState<D, K>)>,
}
enum AuState<D: Hash64, const K: usize> {
    C(C<'static, D, K>),
    S(Sv<D, Tape, K>),
}

fn leak(b: &[u8]) -> &'static [u8] {
    Box::leak(b.to_vec().into_boxed_slice())
}
pub fn point(b: &[u8]) -> Pt {
    CompressedRistretto::from_slice(b).unwrap().decompress().unwrap()
}
pub fn scalar(b: &[u8]) -> Scalar {
    Scalar::from_canonical_bytes(b.try_into().unwrap()).unwrap()
}
pub fn pb(p: &Pt) -> B {
    p.compress().to_bytes().to_vec()
}
pub fn flat(m: M) -> Vec<B> {
    match m {
        M::Nonce(n) => vec![n],
        M::User(u) => vec![u],
        M::Strong(u, p) => vec![u, pb(&p)],
        M::Pub(p) => vec![pb(&p)],
        M::Auth(a) => vec![a],
        M::Reg { user, salt, par, w } => vec![user, salt.into_bytes(), par.into_bytes(), pb(&w)],
        M::SReg { user, q, par, w } => vec![user, q.to_bytes().to_vec(), par.into_bytes(), pb(&w)],
        M::Info { group, x, salt, par } => vec![group.into_bytes(), pb(&x), salt.into_bytes(), par.into_bytes()],
        M::SInfo { group, x, bs, par } => vec![group.into_bytes(), pb(&x), pb(&bs), par.into_bytes()],
    }
}
pub fn text(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}

macro_rules! buf4 {
    ($size:expr, $b:ident, $e:expr) => {
        with_buf!($size, $b, $e, [5, 17, 64, 1024, 140_000])
    };
}

/// strong, partial, pre, explicit client, explicit server
type Flags = [bool; 5];
fn flags(b: &[u8]) -> Flags {
    [b[0] == 1, b[1] == 1, b[2] == 1, b[3] == 1, b[4] == 1]
}

impl<D: Hash64 + 'static, const K: usize> Au<D, K> {
    fn try_step(&mut self, sess: usize, s: &Step, db: &Db, tape: &Tape) -> Option<Outcome> {
        let a = &s.args;
        let h = self.hasher;
        macro_rules! e {
            ($x:expr) => {
                match $x {
                    Ok(x) => x,
                    Err(e) => return Some(err(estr(&e))),
                }
            };
        }
        let fail = |m: M| Some(err(format!("unexpected message {m:?}")));
        match &s.op[..] {
            "reg" => {
                let par = TP(text(&a[2]), None);
                let (u, p) = (&a[0][..], &a[1][..]);
                let strong = a[3] == [1];
                let c = &mut self.client;
                let need = u.len() + p.len() + 1;
                let m = match (strong, a[4][0]) {
                    #[cfg(feature = "alloc")]
                    (false, 0) => e!(c.register_alloc(u, p, par, h)),
                    #[cfg(all(feature = "alloc", feature = "strong"))]
                    (true, 0) => e!(c.register_alloc_strong(u, p, par, h)),
                    #[cfg(not(all(feature = "alloc", feature = "strong")))]
                    (_, 0) => return Some(err("unavailable")),
                    (false, _) => e!(buf4!(fit(need), BUF, c.register::<_, BUF>(u, p, par, h))),
                    #[cfg(feature = "strong")]
                    (true, _) => e!(buf4!(fit(need), BUF, c.register_strong::<_, BUF>(u, p, par, h))),
                    #[cfg(not(feature = "strong"))]
                    _ => return Some(err("unavailable")),
                };
                return Some(ok(flat(cm(&m))));
            }
            #[cfg(not(feature = "partial"))]
            "key" => return Some(err("unavailable")),
            #[cfg(feature = "partial")]
            "key" => {
                let (x, p) = self.server.generate_long_term_keypair();
                return Some(ok(vec![x.to_bytes().to_vec(), pb(&p)]));
            }
            "cstart" => {
                let f = flags(&a[0]);
                if f[2] {
                    let st = e!(self.client.begin_prestablished_ssid(&a[1]));
                    self.ses.insert(sess, (a[0].clone(), AuState::C(C::Pre(st))));
                    return Some(ok(vec![]));
                }
                let (st, m) = self.client.begin();
                let m = cm(&m);
                self.ses.insert(sess, (a[0].clone(), AuState::C(C::Nonce(st))));
                return Some(ok(flat(m)));
            }
            "sstart" => {
                let f = flags(&a[0]);
                if f[2] {
                    let st = e!(self.server.begin_prestablished_ssid(&a[1]));
                    self.ses.insert(sess, (a[0].clone(), AuState::S(Sv::Aug(st))));
                    return Some(ok(vec![]));
                }
                let (st, m) = self.server.begin();
                let m = sm(&m);
                self.ses.insert(sess, (a[0].clone(), AuState::S(Sv::Nonce(st))));
                return Some(ok(flat(m)));
            }
            _ => {}
        }
        let (mut fl, st) = self.ses.remove(&sess)?;
        let f = flags(&fl);
        let mut rng = tape.clone();
        let (st, out): (AuState<D, K>, Vec<B>) = match (&s.op[..], st) {
            ("caug", AuState::C(st)) => {
                let pre = match st {
                    C::Pre(x) => x,
                    C::Nonce(x) => x.agree_ssid(a[0][..].try_into().unwrap()),
                    _ => return None,
                };
                let (u, p) = (leak(&a[1]), leak(&a[2]));
                // what has to fit the buffer later
                fl.truncate(5);
                fl.extend((u.len() as u32 + p.len() as u32 + 1).to_le_bytes());
                if f[0] {
                    #[cfg(not(feature = "strong"))]
                    return Some(err("unavailable"));
                    #[cfg(feature = "strong")]
                    {
                        let (st, m) = pre.start_augmentation_strong(u, p, &mut rng);
                        (AuState::C(C::Strong(st)), flat(cm(&m)))
                    }
                } else {
                    let (st, m) = pre.start_augmentation(u, p);
                    (AuState::C(C::Aug(st)), flat(cm(&m)))
                }
            }
            ("sinfo", AuState::S(st)) => {
                let aug = match st {
                    Sv::Aug(x) => x,
                    Sv::Nonce(x) => x.agree_ssid(a[0][..].try_into().unwrap()),
                    _ => return None,
                };
                let (st, m) = match (f[0], f[1]) {
                    (false, false) => {
                        let (st, m) = aug.generate_client_info(&a[1], db, rng);
                        (st, sm(&m))
                    }
                    #[cfg(feature = "partial")]
                    (false, true) => {
                        let (st, m) = aug.generate_client_info_partial_aug(&a[1], db, rng);
                        (st, sm(&m))
                    }
                    #[cfg(feature = "strong")]
                    (true, false) => {
                        let (st, m) = e!(aug.generate_client_info_strong(&a[1], point(&a[2]), db, rng));
                        (st, sm(&m))
                    }
                    #[cfg(all(feature = "partial", feature = "strong"))]
                    (true, true) => {
                        let (st, m) = e!(aug.generate_client_info_partial_strong(&a[1], point(&a[2]), db, rng));
                        (st, sm(&m))
                    }
                    #[cfg(not(all(feature = "partial", feature = "strong")))]
                    _ => return Some(err("unavailable")),
                };
                (AuState::S(Sv::Cpace(st)), flat(m))
            }
            ("ccpace", AuState::C(st)) => {
                let par = TP(text(&a[2]), None);
                let x = point(&a[0]);
                let need = u32::from_le_bytes(fl[5..9].try_into().unwrap());
                let size = if a[3] == [0] { 0 } else { fit(need as usize) };
                let st = match st {
                    C::Aug(st) => {
                        let salt: &'static SaltString = Box::leak(Box::new(SaltString::from_b64(&text(&a[1])).ok()?));
                        match size {
                            #[cfg(feature = "alloc")]
                            0 => e!(st.generate_cpace_alloc(x, salt, par, h)),
                            #[cfg(not(feature = "alloc"))]
                            0 => return Some(err("unavailable")),
                            n => e!(buf4!(n, BUF, st.generate_cpace::<_, BUF>(x, salt, par, h))),
                        }
                    }
                    #[cfg(feature = "strong")]
                    C::Strong(st) => match size {
                        #[cfg(not(feature = "alloc"))]
                        0 => return Some(err("unavailable")),
                        #[cfg(feature = "alloc")]
                        0 => e!(st.generate_cpace_alloc(x, point(&a[1]), par, h)),
                        n => e!(buf4!(n, BUF, st.generate_cpace::<BUF>(x, point(&a[1]), par, h))),
                    },
                    _ => return None,
                };
                (AuState::C(C::Cpace(st)), vec![])
            }
            ("pub", AuState::C(C::Cpace(st))) => {
                let (st, m) = st.generate_public_key(&a[0], &mut rng);
                (AuState::C(C::Key(st)), flat(cm(&m)))
            }
            ("pub", AuState::S(Sv::Cpace(st))) => {
                let (st, m) = st.generate_public_key(&a[0]);
                (AuState::S(Sv::Key(st)), flat(sm(&m)))
            }
            ("recv", AuState::C(C::Key(st))) => {
                if !f[3] {
                    return Some(ok(vec![e!(st.implicit_auth(point(&a[0]))).to_vec()]));
                }
                let (st, m) = e!(st.receive_server_pubkey(point(&a[0])));
                (AuState::C(C::Exp(st)), flat(cm(&m)))
            }
            ("recv", AuState::S(Sv::Key(st))) => {
                if !f[4] {
                    return Some(ok(vec![e!(st.implicit_auth(point(&a[0]))).to_vec()]));
                }
                (AuState::S(Sv::Exp(e!(st.receive_client_pubkey(point(&a[0]))))), vec![])
            }
            ("auth", AuState::C(C::Exp(st))) => {
                return Some(ok(vec![e!(st.receive_server_authenticator(a[0][..].try_into().unwrap())).to_vec()]));
            }
            ("auth", AuState::S(Sv::Exp(st))) => {
                let (k, m) = e!(st.receive_client_authenticator(a[0][..].try_into().unwrap()));
                let mut o = vec![k.to_vec()];
                o.extend(flat(sm(&m)));
                return Some(ok(o));
            }
            (x, _) => return fail(M::User(x.as_bytes().to_vec())),
        };
        self.ses.insert(sess, (fl, st));
        Some(ok(out))
    }
}

fn fit(n: usize) -> usize {
    [5, 17, 64, 1024, 140_000].into_iter().find(|b| *b >= n).unwrap_or(140_000)
}

impl<D: Hash64 + 'static, const K: usize> AuBase for Au<D, K> {
    fn step(&mut self, sess: usize, s: &Step, db: &Db, tape: &Tape) -> Outcome {
        let r = self.try_step(sess, s, db, tape).unwrap_or_else(|| err("not applicable"));
        take_log();
        r
    }
    fn drop_session(&mut self, sess: usize) {
        self.ses.remove(&sess);
    }
    fn nonce_len(&self) -> usize {
        K
    }
}

pub const AUS: usize = 4;
fn au_base(i: usize, tape: &Tape) -> Box<dyn AuBase> {
    fn mk<D: Hash64 + 'static, const K: usize>(h: Out, t: &Tape) -> Box<dyn AuBase> {
        Box::new(Au::<D, K> {
            client: AuCPaceClient::new(t.clone()),
            server: AuCPaceServer::new(t.clone()),
            hasher: TH(h),
            ses: HashMap::new(),
        })
    }
    match i {
        0 => mk::<Sha512, 16>(Out::Bytes(64), tape),
        1 => mk::<Sha512, 16>(Out::Bytes(32), tape),
        2 => mk::<Alt512, 32>(Out::Bytes(64), tape),
        _ => mk::<Alt512, 24>(Out::Scrypt, tape),
    }
}

// ---------------------------------------------------------------- the engine

enum State {
    Sp(Spake2<Ed25519Group>),
    SrC { a: B, u: B, p: B },
    SrS { b: B, v: B },
    Reply(Box<dyn Verifier>),
}

/// the objects of one thread of the process: what sessions are made from, and the sessions
pub struct Engine {
    pub tape: Tape,
    pub au: HashMap<usize, Box<dyn AuBase>>,
    /// what was drawn while the objects were made
    pub init: HashMap<usize, B>,
    srp: HashMap<(usize, usize), Box<dyn SrpBase>>,
    ses: HashMap<usize, State>,
    pws: HashMap<B, Password>,
    ids: HashMap<B, Identity>,
}

impl Engine {
    pub fn new(tape: &Tape) -> Engine {
        Engine {
            tape: tape.clone(),
            au: HashMap::new(),
            init: HashMap::new(),
            srp: HashMap::new(),
            ses: HashMap::new(),
            pws: HashMap::new(),
            ids: HashMap::new(),
        }
    }
    /// make the objects, with the bytes given if any
    pub fn prepare(&mut self, v: Variant, init: Option<&[u8]>) {
        if !self.au.contains_key(&v.au) {
            if let Some(b) = init {
                self.tape.force(b);
            }
            let at = self.tape.len();
            let t = self.tape.clone();
            let b = os::with_tape(&t, || au_base(v.au, &t));
            self.init.insert(v.au, self.tape.since(at).bytes);
            self.au.insert(v.au, b);
        }
        self.srp.entry((v.grp, v.hash)).or_insert_with(|| srp_base(v.grp, v.hash));
    }
    pub fn step(&mut self, v: Variant, sess: usize, s: &Step, db: &Db) -> Outcome {
        let t = self.tape.clone();
        let r = os::with_tape(&t, || guard(|| self.inner(v, sess, s, db)));
        r.unwrap_or_else(|| {
            self.forget(v, sess);
            err("panic")
        })
    }
    pub fn forget(&mut self, v: Variant, sess: usize) {
        let _ = guard(|| {
            self.ses.remove(&sess);
        });
        let _ = guard(|| self.au.get_mut(&v.au).unwrap().drop_session(sess));
    }
    fn inner(&mut self, v: Variant, sess: usize, s: &Step, db: &Db) -> Outcome {
        let a = &s.args;
        if let Some(op) = s.op.strip_prefix("au.") {
            let s = Step { op: op.into(), ..s.clone() };
            return self.au.get_mut(&v.au).unwrap().step(sess, &s, db, &self.tape);
        }
        let sr = &self.srp[&(v.grp, v.hash)];
        let srp_err = |e: SrpAuthError| match e {
            SrpAuthError::IllegalParameter(p) => err(format!("IllegalParameter {p}")),
            SrpAuthError::BadRecordMac(p) => err(format!("BadRecordMac {p}")),
        };
        match &s.op[..] {
            "sp.start" => {
                let pw = self.pws.entry(a[1].clone()).or_insert_with(|| Password::new(&a[1])).clone();
                let ids: Vec<Identity> =
                    a[2..].iter().map(|i| self.ids.entry(i.clone()).or_insert_with(|| Identity::new(i)).clone()).collect();
                // small letters: with the generator given
                let rng = self.tape.clone();
                let (st, m) = match &a[0][..] {
                    #[cfg(feature = "getrandom")]
                    b"A" => Spake2::<Ed25519Group>::start_a(&pw, &ids[0], &ids[1]),
                    #[cfg(feature = "getrandom")]
                    b"B" => Spake2::<Ed25519Group>::start_b(&pw, &ids[0], &ids[1]),
                    #[cfg(feature = "getrandom")]
                    b"S" => Spake2::<Ed25519Group>::start_symmetric(&pw, &ids[0]),
                    b"a" => Spake2::<Ed25519Group>::start_a_with_rng(&pw, &ids[0], &ids[1], rng),
                    b"b" => Spake2::<Ed25519Group>::start_b_with_rng(&pw, &ids[0], &ids[1], rng),
                    b"s" => Spake2::<Ed25519Group>::start_symmetric_with_rng(&pw, &ids[0], rng),
                    _ => return err("unavailable"),
                };
                let d = format!("{st:?}").into_bytes();
                self.ses.insert(sess, State::Sp(st));
                ok(vec![m, d])
            }
            "sp.finish" => {
                let Some(State::Sp(st)) = self.ses.remove(&sess) else { return err("not applicable") };
                match st.finish(&a[0]) {
                    Ok(k) => ok(vec![k]),
                    Err(e) => err(format!("{e:?}")),
                }
            }
            "sr.reg" => ok(vec![sr.register(&a[0], &a[1], &a[2])]),
            "sr.cstart" => {
                let o = sr.a_pub(&a[0]);
                self.ses.insert(sess, State::SrC { a: a[0].clone(), u: a[1].clone(), p: a[2].clone() });
                ok(vec![o])
            }
            "sr.sstart" => {
                let o = sr.b_pub(&a[0], &a[1]);
                self.ses.insert(sess, State::SrS { b: a[0].clone(), v: a[1].clone() });
                ok(vec![o])
            }
            "sr.reply" => {
                let r = match self.ses.remove(&sess) {
                    Some(State::SrC { a: x, u, p }) => sr.client(&x, &u, &p, &a[1], &a[0]),
                    Some(State::SrS { b, v }) => sr.server(&b, &v, &a[0]),
                    _ => return err("not applicable"),
                };
                match r {
                    Err(e) => srp_err(e),
                    Ok(x) => {
                        let o = ok(vec![x.proof(), x.key()]);
                        self.ses.insert(sess, State::Reply(x));
                        o
                    }
                }
            }
            "sr.verify" => {
                let Some(State::Reply(x)) = self.ses.remove(&sess) else { return err("not applicable") };
                match x.verify(&a[0]) {
                    Ok(()) => ok(vec![x.key()]),
                    Err(e) => srp_err(e),
                }
            }
            x => panic!("step {x}"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Script {
    pub v: Variant,
    pub init: B,
    pub steps: Vec<Step>,
    pub outs: Vec<Outcome>,
    /// when the steps were taken, and in which walk
    pub ord: Vec<usize>,
    pub walk: usize,
}

pub fn hx(b: &[u8]) -> String {
    if b.is_empty() {
        "-".into()
    } else {
        crate::report::hex(b)
    }
}
pub fn unhx(s: &str) -> B {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// the database as one lookup saw it: strong?, user, then the record and the key if any
pub fn snapshot(db: &Db, user: &[u8]) -> Vec<B> {
    let mut v = vec![];
    match db.plain.get(user) {
        Some((w, s, p)) => v.extend([b"p".to_vec(), pb(w), s.as_str().as_bytes().to_vec(), p.as_str().as_bytes().to_vec()]),
        None => v.push(vec![]),
    }
    match db.strong.get(user) {
        Some((w, q, p)) => v.extend([b"s".to_vec(), pb(w), q.to_bytes().to_vec(), p.as_str().as_bytes().to_vec()]),
        None => v.push(vec![]),
    }
    match db.keys.get(user) {
        Some((x, p)) => v.extend([b"k".to_vec(), x.to_bytes().to_vec(), pb(p)]),
        None => v.push(vec![]),
    }
    v
}
pub fn restore(user: &[u8], v: &[B]) -> Db {
    let mut db = Db::default();
    let mut i = 0;
    while i < v.len() {
        match &v[i][..] {
            b"p" => {
                db.plain.insert(user.to_vec(), (point(&v[i + 1]), SaltString::from_b64(&text(&v[i + 2])).unwrap(), text(&v[i + 3]).parse().unwrap()));
                i += 4;
            }
            b"s" => {
                db.strong.insert(user.to_vec(), (point(&v[i + 1]), scalar(&v[i + 2]), text(&v[i + 3]).parse().unwrap()));
                i += 4;
            }
            b"k" => {
                db.keys.insert(user.to_vec(), (scalar(&v[i + 1]), point(&v[i + 2])));
                i += 3;
            }
            _ => i += 1,
        }
    }
    db
}

impl Script {
    pub fn text(&self) -> String {
        let mut s = format!("{} {} {} {}\n", self.v.au, self.v.grp, self.v.hash, hx(&self.init));
        for x in &self.steps {
            s.push_str(&x.op);
            s.push(' ');
            s.push_str(&hx(&x.rng));
            for a in &x.args {
                s.push(' ');
                s.push_str(&hx(a));
            }
            s.push('\n');
        }
        s
    }
    pub fn parse(t: &str) -> Script {
        let mut lines = t.lines();
        let h: Vec<&str> = lines.next().unwrap().split(' ').collect();
        let v = Variant { au: h[0].parse().unwrap(), grp: h[1].parse().unwrap(), hash: h[2].parse().unwrap() };
        let steps = lines.map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            Step { op: w[0].into(), rng: unhx(w[1]), args: w[2..].iter().map(|x| unhx(x)).collect() }
        });
        Script { v, init: unhx(h[3]), steps: steps.collect(), outs: vec![], ord: vec![], walk: 0 }
    }
    fn run_here(&self) -> String {
        let tape = Tape::new(&[99]);
        let mut e = Engine::new(&tape);
        e.prepare(self.v, Some(&self.init));
        let mut out = String::new();
        for s in &self.steps {
            let db = if s.op == "au.sinfo" { restore(&s.args[1], &s.args[3..]) } else { Db::default() };
            tape.force(&s.rng);
            let o = e.step(self.v, 1, s, &db);
            out.push_str(&o.status.replace([' ', '\n'], "_"));
            for x in &o.outs {
                out.push(' ');
                out.push_str(&hx(x));
            }
            out.push('\n');
        }
        out
    }
    /// this process: nothing else has happened in it.  Several scripts one after the other, if "=" separates them.
    pub fn alone_here() {
        let mut t = String::new();
        std::io::stdin().read_to_string(&mut t).unwrap();
        let out: Vec<String> = t.split("=\n").map(|s| Script::parse(s).run_here()).collect();
        std::io::stdout().write_all(out.join("=\n").as_bytes()).unwrap();
    }
}
