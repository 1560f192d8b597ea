// ---- helpers: a database, a cheap password hasher, a counting generator ----
#![allow(dead_code, unused_imports)]
use aucpace::client::*;
use aucpace::server::*;
use aucpace::{AuCPaceClient, AuCPaceServer, ClientMessage, Database, Error, PartialAugDatabase, ServerMessage, StrongDatabase};
use curve25519_dalek::{ristretto::RistrettoPoint, scalar::Scalar, constants::RISTRETTO_BASEPOINT_POINT, traits::Identity};
use password_hash::{Decimal, Ident, Output, ParamsString, PasswordHash, PasswordHasher, Salt, SaltString};
use rand_core::{CryptoRng, OsRng, RngCore};
use sha2::{Digest, Sha512};
use std::collections::HashMap;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Par(pub String);
impl<'a> TryFrom<&'a PasswordHash<'a>> for Par {
    type Error = password_hash::Error;
    fn try_from(h: &'a PasswordHash<'a>) -> Result<Par, Self::Error> { Ok(Par(h.params.as_str().to_string())) }
}
impl TryFrom<Par> for ParamsString {
    type Error = password_hash::Error;
    fn try_from(p: Par) -> Result<ParamsString, Self::Error> { p.0.parse() }
}
/// hashes to this many bytes
#[derive(Clone, Copy)]
pub struct Cheap(pub usize);
impl PasswordHasher for Cheap {
    type Params = Par;
    fn hash_password_customized<'a>(&self, password: &[u8], _: Option<Ident<'a>>, _: Option<Decimal>, params: Par,
        salt: impl Into<Salt<'a>>) -> Result<PasswordHash<'a>, password_hash::Error> {
        let salt = salt.into();
        let mut h = Sha512::new();
        h.update(salt.as_str()); h.update([0]); h.update(&params.0); h.update([0]); h.update(password);
        Ok(PasswordHash { algorithm: Ident::new_unwrap("x"), version: None, params: params.0.parse()?, salt: Some(salt),
            hash: Some(Output::new(&h.finalize()[..self.0])?) })
    }
}
#[derive(Default)]
pub struct Db {
    pub plain: HashMap<Vec<u8>, (RistrettoPoint, SaltString, ParamsString)>,
    pub strong: HashMap<Vec<u8>, (RistrettoPoint, Scalar, ParamsString)>,
    pub keys: HashMap<Vec<u8>, (Scalar, RistrettoPoint)>,
}
impl Database for Db {
    type PasswordVerifier = RistrettoPoint;
    fn lookup_verifier(&self, u: &[u8]) -> Option<(RistrettoPoint, SaltString, ParamsString)> { self.plain.get(u).cloned() }
    fn store_verifier(&mut self, u: &[u8], s: SaltString, _: Option<&[u8]>, v: RistrettoPoint, p: ParamsString) { self.plain.insert(u.to_vec(), (v, s, p)); }
}
impl StrongDatabase for Db {
    type PasswordVerifier = RistrettoPoint;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, u: &[u8]) -> Option<(RistrettoPoint, Scalar, ParamsString)> { self.strong.get(u).cloned() }
    fn store_verifier_strong(&mut self, u: &[u8], _: Option<&[u8]>, v: RistrettoPoint, q: Scalar, p: ParamsString) { self.strong.insert(u.to_vec(), (v, q, p)); }
}
impl PartialAugDatabase for Db {
    type PrivateKey = Scalar;
    type PublicKey = RistrettoPoint;
    fn lookup_long_term_keypair(&self, u: &[u8]) -> Option<(Scalar, RistrettoPoint)> { self.keys.get(u).cloned() }
    fn store_long_term_keypair(&mut self, u: &[u8], x: Scalar, p: RistrettoPoint) -> aucpace::Result<()> { self.keys.insert(u.to_vec(), (x, p)); Ok(()) }
}
pub type Cl<const K: usize> = AuCPaceClient<Sha512, Cheap, OsRng, K>;
pub type Sv<const K: usize> = AuCPaceServer<Sha512, OsRng, K>;
impl Db {
    pub fn put<const K: usize>(&mut self, m: ClientMessage<'_, K>) {
        match m {
            ClientMessage::Registration { username, salt, params, verifier } => self.store_verifier(username, salt, None, verifier, params),
            ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => self.store_verifier_strong(username, None, verifier, secret_exponent, params),
            _ => panic!("not a registration"),
        }
    }
}
pub fn par(p: &ParamsString) -> Par { Par(p.as_str().to_string()) }
/// the plain variant with a pre-established SSID up to the CPace substeps (heap hashing)
pub fn to_cpace<const K: usize>(cl: &mut Cl<K>, sv: &mut Sv<K>, db: &Db, ssid: (&[u8], &[u8]), user: &[u8], pass: &[u8], n: usize)
    -> Result<(AuCPaceClientCPaceSubstep<Sha512, K>, AuCPaceServerCPaceSubstep<Sha512, OsRng, K>), Error> {
    let c = cl.begin_prestablished_ssid(ssid.0)?;
    let s = sv.begin_prestablished_ssid(ssid.1)?;
    let (c, _) = c.start_augmentation(user, pass);
    let (s, m) = s.generate_client_info(user, db, OsRng);
    let (x, salt, p) = match m { ServerMessage::AugmentationInfo { x_pub, salt, pbkdf_params, .. } => (x_pub, salt, pbkdf_params), _ => panic!() };
    Ok((c.generate_cpace_alloc(x, &salt, par(&p), Cheap(n))?, s))
}
pub fn cpub<const K: usize>(m: &ClientMessage<'_, K>) -> RistrettoPoint { match m { ClientMessage::PublicKey(p) => *p, _ => panic!() } }
pub fn spub<const K: usize>(m: &ServerMessage<'_, K>) -> RistrettoPoint { match m { ServerMessage::PublicKey(p) => *p, _ => panic!() } }
pub fn cauth<const K: usize>(m: &ClientMessage<'_, K>) -> [u8; 64] { match m { ClientMessage::Authenticator(p) => *p, _ => panic!() } }
pub fn sauth<const K: usize>(m: &ServerMessage<'_, K>) -> [u8; 64] { match m { ServerMessage::Authenticator(p) => *p, _ => panic!() } }
/// both session keys, implicit authentication
pub fn keys<const K: usize>(c: AuCPaceClientCPaceSubstep<Sha512, K>, s: AuCPaceServerCPaceSubstep<Sha512, OsRng, K>, ci: (&[u8], &[u8])) -> (Vec<u8>, Vec<u8>) {
    let (c, cm) = c.generate_public_key(ci.0, &mut OsRng);
    let (s, sm) = s.generate_public_key(ci.1);
    (c.implicit_auth(spub(&sm)).unwrap().to_vec(), s.implicit_auth(cpub(&cm)).unwrap().to_vec())
}
pub fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {what}"); std::process::exit(1); } }
// ---- the demonstration ----
