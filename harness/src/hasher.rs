//! A password hasher whose behaviour the harness chooses, and that records what it was asked.

use password_hash::errors::InvalidValue;
use password_hash::{Decimal, Error, Ident, Output, ParamsString, PasswordHash, PasswordHasher, Salt};
use sha2::{Digest, Sha512};
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    /// this many bytes
    Bytes(usize),
    None,
    Err(usize),
    /// real scrypt with the least work
    Scrypt,
}

/// parameters: their string, or the error that turning them into a string gives
#[derive(Clone, Debug, Default, PartialEq)]
pub struct TP(pub String, pub Option<usize>);

pub fn error(n: usize) -> Error {
    match n {
        0 => Error::Algorithm,
        1 => Error::B64Encoding(password_hash::SaltString::encode_b64(&[0; 60]).err().map_or(
            password_hash::errors::B64Error::InvalidLength,
            |e| match e {
                Error::B64Encoding(b) => b,
                _ => password_hash::errors::B64Error::InvalidEncoding,
            },
        )),
        2 => Error::Crypto,
        3 => Error::OutputSize { provided: std::cmp::Ordering::Less, expected: 10 },
        4 => Error::ParamNameDuplicated,
        5 => Error::ParamNameInvalid,
        6 => Error::ParamValueInvalid(InvalidValue::TooLong),
        7 => Error::ParamsMaxExceeded,
        8 => Error::Password,
        9 => Error::PhcStringField,
        10 => Error::SaltInvalid(InvalidValue::TooShort),
        _ => Error::Version,
    }
}

impl<'a> TryFrom<&'a PasswordHash<'a>> for TP {
    type Error = Error;
    fn try_from(h: &'a PasswordHash<'a>) -> Result<TP, Error> {
        Ok(TP(h.params.as_str().to_string(), None))
    }
}

impl TryFrom<TP> for ParamsString {
    type Error = Error;
    fn try_from(p: TP) -> Result<ParamsString, Error> {
        match p.1 {
            Some(n) => Err(error(n)),
            None => p.0.parse(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Asked {
    pub password: Vec<u8>,
    pub salt: String,
    pub params: String,
    pub plain: bool,
}

thread_local! {
    static LOG: RefCell<Vec<Asked>> = const { RefCell::new(Vec::new()) };
}

pub fn take_log() -> Vec<Asked> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

#[derive(Clone, Copy, Debug)]
pub struct TH(pub Out);

/// what the hasher computes
pub fn compute(o: Out, password: &[u8], salt: &str, params: &str) -> Vec<u8> {
    match o {
        Out::Scrypt => {
            let s = Salt::from_b64(salt).unwrap();
            let p = scrypt::Params::new(1, 1, 1, 32).unwrap();
            // the parameters take part, so that changed ones change the result
            let mut pw = password.to_vec();
            pw.extend_from_slice(b"\0params ");
            pw.extend_from_slice(params.as_bytes());
            let h = scrypt::Scrypt.hash_password_customized(&pw, None, None, p, s).unwrap();
            h.hash.unwrap().as_bytes().to_vec()
        }
        Out::Bytes(n) => {
            let mut h = Sha512::new();
            h.update((params.len() as u64).to_le_bytes());
            h.update(params);
            h.update((salt.len() as u64).to_le_bytes());
            h.update(salt);
            h.update(password);
            h.finalize()[..n].to_vec()
        }
        _ => vec![],
    }
}

impl PasswordHasher for TH {
    type Params = TP;
    fn hash_password_customized<'a>(
        &self,
        password: &[u8],
        algorithm: Option<Ident<'a>>,
        version: Option<Decimal>,
        params: TP,
        salt: impl Into<Salt<'a>>,
    ) -> Result<PasswordHash<'a>, Error> {
        let salt = salt.into();
        LOG.with(|l| {
            l.borrow_mut().push(Asked {
                password: password.to_vec(),
                salt: salt.as_str().to_string(),
                params: params.0.clone(),
                plain: algorithm.is_none() && version.is_none(),
            })
        });
        let what = match &params.0[..] {
            "o=fails" => Out::Err(2),
            "o=none" => Out::None,
            "o=48" => Out::Bytes(48),
            _ => self.0,
        };
        let hash = match what {
            Out::Err(n) => return Err(error(n)),
            Out::None => None,
            o => Some(Output::new(&compute(o, password, salt.as_str(), &params.0))?),
        };
        Ok(PasswordHash {
            algorithm: Ident::new_unwrap("test"),
            version: None,
            params: params.0.parse()?,
            salt: Some(salt),
            hash,
        })
    }
}
