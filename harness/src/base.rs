//! What the replays of AuCPace share: another hash, sources of randomness, a database, messages, states.

use crate::hasher::TH;
use crate::os;
use crate::report::hexs;
use crate::tape::Tape;
use ::aucpace::client::*;
use ::aucpace::server::*;
#[cfg(feature = "partial")]
use ::aucpace::PartialAugDatabase;
#[cfg(feature = "strong")]
use ::aucpace::StrongDatabase;
use ::aucpace::{Database, Error};
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use digest::{Digest, FixedOutput, HashMarker, Output, OutputSizeUser, Update};
use password_hash::{ParamsString, SaltString};
use rand_core::{CryptoRng, OsRng, RngCore};
use sha2::Sha512;
use std::collections::HashMap;

pub type Pt = RistrettoPoint;

// ---------------------------------------------------------------- another hash of 64 bytes

#[derive(Clone)]
pub struct Alt512(Sha512);
impl Default for Alt512 {
    fn default() -> Self {
        Alt512(Sha512::new_with_prefix(b"another hash"))
    }
}
impl HashMarker for Alt512 {}
impl OutputSizeUser for Alt512 {
    type OutputSize = digest::typenum::U64;
}
impl Update for Alt512 {
    fn update(&mut self, data: &[u8]) {
        Update::update(&mut self.0, data);
    }
}
impl FixedOutput for Alt512 {
    fn finalize_into(self, out: &mut Output<Self>) {
        let mut v = self.0.finalize();
        v.reverse();
        out.copy_from_slice(&v);
    }
}

pub trait Hash64: Digest<OutputSize = digest::typenum::U64> + Default {}
impl<D: Digest<OutputSize = digest::typenum::U64> + Default> Hash64 for D {}

// ---------------------------------------------------------------- random generators

/// where the code under test gets its randomness: a tape, or the operating system (answered from a tape)
pub trait Source: RngCore + CryptoRng + Clone {
    fn of(t: &Tape) -> Self;
    fn run<R>(t: &Tape, f: impl FnOnce() -> R) -> R;
}
impl Source for Tape {
    fn of(t: &Tape) -> Tape {
        t.clone()
    }
    fn run<R>(_: &Tape, f: impl FnOnce() -> R) -> R {
        f()
    }
}
impl Source for OsRng {
    fn of(_: &Tape) -> OsRng {
        OsRng
    }
    fn run<R>(t: &Tape, f: impl FnOnce() -> R) -> R {
        os::with_tape(t, f)
    }
}

// ---------------------------------------------------------------- database

#[derive(Clone, Default)]
pub struct Db {
    pub plain: HashMap<Vec<u8>, (Pt, SaltString, ParamsString)>,
    pub strong: HashMap<Vec<u8>, (Pt, Scalar, ParamsString)>,
    pub keys: HashMap<Vec<u8>, (Scalar, Pt)>,
}

impl Database for Db {
    type PasswordVerifier = Pt;
    fn lookup_verifier(&self, u: &[u8]) -> Option<(Pt, SaltString, ParamsString)> {
        self.plain.get(u).cloned()
    }
    fn store_verifier(&mut self, u: &[u8], salt: SaltString, _: Option<&[u8]>, v: Pt, p: ParamsString) {
        self.plain.insert(u.to_vec(), (v, salt, p));
    }
}
#[cfg(feature = "strong")]
impl StrongDatabase for Db {
    type PasswordVerifier = Pt;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, u: &[u8]) -> Option<(Pt, Scalar, ParamsString)> {
        self.strong.get(u).cloned()
    }
    fn store_verifier_strong(&mut self, u: &[u8], _: Option<&[u8]>, v: Pt, q: Scalar, p: ParamsString) {
        self.strong.insert(u.to_vec(), (v, q, p));
    }
}
#[cfg(feature = "partial")]
impl PartialAugDatabase for Db {
    type PrivateKey = Scalar;
    type PublicKey = Pt;
    fn lookup_long_term_keypair(&self, u: &[u8]) -> Option<(Scalar, Pt)> {
        self.keys.get(u).cloned()
    }
    fn store_long_term_keypair(&mut self, u: &[u8], x: Scalar, p: Pt) -> Result<(), Error> {
        self.keys.insert(u.to_vec(), (x, p));
        Ok(())
    }
}

// ---------------------------------------------------------------- messages

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Nonce(Vec<u8>),
    User(Vec<u8>),
    Strong(Vec<u8>, Pt),
    Pub(Pt),
    Auth(Vec<u8>),
    Reg { user: Vec<u8>, salt: String, par: String, w: Pt },
    SReg { user: Vec<u8>, q: Scalar, par: String, w: Pt },
    Info { group: String, x: Pt, salt: String, par: String },
    SInfo { group: String, x: Pt, bs: Pt, par: String },
}

pub fn cm<const K: usize>(m: &ClientMessage<'_, K>) -> M {
    match m {
        ClientMessage::Nonce(n) => M::Nonce(n.to_vec()),
        ClientMessage::Username(u) => M::User(u.to_vec()),
        #[cfg(feature = "strong")]
        ClientMessage::StrongUsername { username, blinded } => M::Strong(username.to_vec(), *blinded),
        ClientMessage::PublicKey(p) => M::Pub(*p),
        ClientMessage::Authenticator(a) => M::Auth(a.to_vec()),
        ClientMessage::Registration { username, salt, params, verifier } => {
            M::Reg { user: username.to_vec(), salt: salt.as_str().into(), par: params.as_str().into(), w: *verifier }
        }
        #[cfg(feature = "strong")]
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => {
            M::SReg { user: username.to_vec(), q: *secret_exponent, par: params.as_str().into(), w: *verifier }
        }
    }
}

pub fn sm<const K: usize>(m: &ServerMessage<'_, K>) -> M {
    match m {
        ServerMessage::Nonce(n) => M::Nonce(n.to_vec()),
        ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params } => M::Info {
            group: group.to_string(),
            x: *x_pub,
            salt: salt.as_str().into(),
            par: pbkdf_params.as_str().into(),
        },
        #[cfg(feature = "strong")]
        ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params } => M::SInfo {
            group: group.to_string(),
            x: *x_pub,
            bs: *blinded_salt,
            par: pbkdf_params.as_str().into(),
        },
        ServerMessage::PublicKey(p) => M::Pub(*p),
        ServerMessage::Authenticator(a) => M::Auth(a.to_vec()),
    }
}

pub enum C<'a, D: Hash64, const K: usize> {
    No,
    Nonce(AuCPaceClientSsidEstablish<D, TH, K>),
    Pre(AuCPaceClientPreAug<D, TH, K>),
    Aug(AuCPaceClientAugLayer<'a, D, TH, K>),
    #[cfg(feature = "strong")]
    Strong(StrongAuCPaceClientAugLayer<'a, D, TH, K>),
    Cpace(AuCPaceClientCPaceSubstep<D, K>),
    Key(AuCPaceClientRecvServerKey<D, K>),
    Exp(AuCPaceClientExpMutAuth<D, K>),
}

pub enum Sv<D: Hash64, R: Source, const K: usize> {
    No,
    Nonce(AuCPaceServerSsidEstablish<D, K>),
    Aug(AuCPaceServerAugLayer<D, K>),
    Cpace(AuCPaceServerCPaceSubstep<D, R, K>),
    Key(AuCPaceServerRecvClientKey<D, K>),
    Exp(AuCPaceServerExpMutAuth<D, K>),
}

#[macro_export]
macro_rules! with_buf {
    ($size:expr, $b:ident, $e:expr, [$($n:literal),*]) => {
        match $size {
            $($n => { const $b: usize = $n; $e })*
            x => panic!("buffer size {x}"),
        }
    };
}
pub fn estr(e: &Error) -> String {
    match e {
        Error::IllegalPointError => "IllegalPoint".into(),
        Error::MutualAuthFail => "MutualAuthFail".into(),
        Error::PasswordHashing(x) => format!("PasswordHashing({x:?})"),
        x => format!("{x:?}"),
    }
}

pub fn show_bytes(v: &[u8]) -> String {
    if v.len() != 32 && v.iter().all(|c| c.is_ascii_graphic()) {
        String::from_utf8_lossy(v).into()
    } else {
        hexs(v)
    }
}

