//! Messages of AuCPace on the wire (spec/AuCPaceWire.tla).

use crate::aucpace::{cm, show_bytes, sm, some_params, to_postcard, Pt, Wire, BASE, M};
use crate::json::{tlc_lines, J};
use crate::obj;
use crate::prng::Prng;
use crate::report::{hexs, Report};
use crate::util::{guard, parallel, Args};
use ::aucpace::client::ClientMessage;
use ::aucpace::server::ServerMessage;
use curve25519_dalek::ristretto::CompressedRistretto;
use curve25519_dalek::scalar::Scalar;
use password_hash::{ParamsString, SaltString};

/// A field as it is written: what kind of field, and its bytes. `over`: it claims to be longer.
struct Fld {
    t: String,
    b: Vec<u8>,
    over: bool,
}

fn varint(mut n: u64, out: &mut Vec<u8>) {
    while n >= 128 {
        out.push(n as u8 | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
}

/// the encoding of a message, independently of serde
fn encode(w: Wire, index: usize, f: &[Fld], r: &mut Prng) -> Vec<u8> {
    let mut v = vec![];
    if w == Wire::Bincode {
        v.extend_from_slice(&(index as u32).to_le_bytes());
    } else {
        varint(index as u64, &mut v);
    }
    let rest: usize = f.iter().map(|x| x.b.len() + 20).sum();
    for x in f {
        if !matches!(&x.t[..], "point" | "scalar") {
            let mut n = x.b.len() as u64;
            if x.over {
                n = *r.pick(&[rest as u64, rest as u64 + 1, 100_000, 1 << 31, u32::MAX as u64, 1 << 62, u64::MAX]);
                n = n.max(rest as u64);
            }
            if w == Wire::Bincode {
                v.extend_from_slice(&n.to_le_bytes());
            } else {
                varint(n, &mut v);
            }
        }
        v.extend_from_slice(&x.b);
    }
    v
}

/// a valid value of a field
fn field(t: &str, v: &J, r: &mut Prng) -> Vec<u8> {
    let (c, n, k) = (v.get("c").s(), v.get("n").n() as usize, v.get("k").n() as usize);
    let scalar = |r: &mut Prng| Scalar::from_bytes_mod_order_wide(&r.bytes(64).try_into().unwrap());
    match (t, c) {
        ("point", "random") => Pt::from_uniform_bytes(&r.bytes(64).try_into().unwrap()).compress().to_bytes().to_vec(),
        ("point", "base") => BASE.compress().to_bytes().to_vec(),
        ("point", "negbase") => (-BASE).compress().to_bytes().to_vec(),
        ("point", "neutral") => vec![0; 32],
        ("point", _) => (BASE * Scalar::from(2 + r.below(100) as u64)).compress().to_bytes().to_vec(),
        ("scalar", "random") => scalar(r).to_bytes().to_vec(),
        ("scalar", "zero") => vec![0; 32],
        ("scalar", "one") => Scalar::ONE.to_bytes().to_vec(),
        ("scalar", "minusone") => (-Scalar::ONE).to_bytes().to_vec(),
        ("scalar", _) => Scalar::from(r.below(1000) as u64).to_bytes().to_vec(),
        ("salt", _) => (0..n).map(|_| *r.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/.-")).collect(),
        ("params", "none") => vec![],
        ("params", _) => some_params(r, n, k).into_bytes(),
        ("group", _) if n == 12 => b"ristretto255".to_vec(),
        ("group", _) => crate::strings::content(if r.chance(1, 2) { 6 } else { 1 }, n, r),
        (_, "zeros") => vec![0; n],
        (_, "ones") => vec![0xff; n],
        (_, "text") => crate::strings::content(2, n, r),
        (_, "utf8") => crate::strings::content(6, n, r),
        _ => r.bytes(n),
    }
}

/// adds a small number
fn add(n: &mut [u8], k: u64) {
    let mut c = k;
    for b in n.iter_mut() {
        c += *b as u64;
        *b = c as u8;
        c >>= 8;
    }
}

/// 2^255 - 19
fn p25519() -> Vec<u8> {
    let mut v = vec![0xff; 32];
    v[0] = 0xed;
    v[31] = 0x7f;
    v
}

fn point(b: &[u8]) -> Option<Pt> {
    CompressedRistretto::from_slice(b).ok()?.decompress()
}

/// breaks a field; the specification says that what results is no encoding
fn break_field(f: &mut Fld, fault: &str, r: &mut Prng) {
    match (&f.t[..], fault) {
        (_, "overrun") => f.over = true,
        // odd field elements are no encodings
        ("point", "negative") => {
            f.b = r.bytes(32);
            f.b[31] &= 0x3f;
            f.b[0] |= 1;
        }
        ("point", "large") => {
            f.b = p25519();
            add(&mut f.b, r.below(19) as u64);
        }
        ("point", "highbit") => f.b[31] |= 0x80,
        ("point", _) => loop {
            f.b = r.bytes(32);
            f.b[31] &= 0x3f;
            f.b[0] &= 0xfe;
            if point(&f.b).is_none() {
                return;
            }
        },
        ("scalar", "order") => {
            f.b = (-Scalar::ONE).to_bytes().to_vec();
            add(&mut f.b, 1 + r.below(3) as u64);
        }
        ("scalar", _) => {
            f.b = r.bytes(32);
            f.b[31] |= 0x20 << r.below(3);
        }
        (_, "nonutf8") => {
            if f.b.is_empty() {
                f.b = vec![b'a'; 6];
            }
            let i = r.below(f.b.len());
            f.b[i] = 0x80 + r.below(64) as u8;
            if i > 0 {
                f.b[i - 1] = b'a';
            }
        }
        ("salt", "empty") => f.b.clear(),
        ("salt", "short") => f.b.truncate(1 + r.below(3)),
        ("salt", "long") => {
            let n = *r.pick(&[65usize, 66, 67, 68, 100, 128, 255, 256, 300]);
            f.b = vec![b'A'; n];
        }
        ("salt", _) => {
            let i = r.below(f.b.len());
            f.b[i] = *r.pick(b" $*_=,:\0\n~");
        }
        ("params", "noequals") => f.b = b"m".to_vec(),
        ("params", "twoequals") => f.b = b"x=1,m=1=2".to_vec(),
        ("params", "badname") => f.b = r.pick(&["X=1", "x y=1", "x=1,_=2", "\u{e9}=1"]).as_bytes().to_vec(),
        ("params", "toolong") => {
            f.b = some_params(r, 4, 127).into_bytes();
            while f.b.len() < 128 {
                f.b.extend_from_slice(b",a=1");
            }
        }
        ("params", "doublecomma") => f.b = b"x=1,,y=2".to_vec(),
        ("params", "trailingcomma") => f.b = b"x=1,".to_vec(),
        ("params", "noname") => f.b = b"=1".to_vec(),
        ("params", "longvalue") => f.b = [b"x=".as_slice(), &[b'A'; 65]].concat(),
        (t, x) => panic!("fault {x} of {t}"),
    }
}

fn salt(b: &[u8]) -> Option<SaltString> {
    SaltString::from_b64(std::str::from_utf8(b).ok()?).ok()
}
fn params(b: &[u8]) -> Option<ParamsString> {
    std::str::from_utf8(b).ok()?.parse().ok()
}

/// the message as it is, and as it is sent; None: the harness cannot make it
#[allow(clippy::type_complexity)]
fn write_client<const K: usize>(kind: &str, f: &[Fld], w: Wire) -> Option<(M, Option<Result<Vec<u8>, String>>)> {
    let m: ClientMessage<'_, K> = match kind {
        "Nonce" => ClientMessage::Nonce(f[0].b[..].try_into().ok()?),
        "Username" => ClientMessage::Username(&f[0].b),
        "StrongUsername" => ClientMessage::StrongUsername { username: &f[0].b, blinded: point(&f[1].b)? },
        "PublicKey" => ClientMessage::PublicKey(point(&f[0].b)?),
        "Authenticator" => ClientMessage::Authenticator(f[0].b[..].try_into().ok()?),
        "Registration" => {
            ClientMessage::Registration { username: &f[0].b, salt: salt(&f[1].b)?, params: params(&f[2].b)?, verifier: point(&f[3].b)? }
        }
        _ => ClientMessage::StrongRegistration {
            username: &f[0].b,
            secret_exponent: Option::<Scalar>::from(Scalar::from_canonical_bytes(f[1].b[..].try_into().ok()?))?,
            params: params(&f[2].b)?,
            verifier: point(&f[3].b)?,
        },
    };
    let sent = cm(&m);
    let b = guard(|| match w {
        Wire::Bincode => bincode::serialize(&m).map_err(|e| e.to_string()),
        _ => to_postcard(&m, &sent),
    });
    Some((sent, b))
}

#[allow(clippy::type_complexity)]
fn write_server<const K: usize>(kind: &str, f: &[Fld], w: Wire) -> Option<(M, Option<Result<Vec<u8>, String>>)> {
    let m: ServerMessage<'_, K> = match kind {
        "Nonce" => ServerMessage::Nonce(f[0].b[..].try_into().ok()?),
        "AugmentationInfo" => ServerMessage::AugmentationInfo {
            group: std::str::from_utf8(&f[0].b).ok()?,
            x_pub: point(&f[1].b)?,
            salt: salt(&f[2].b)?,
            pbkdf_params: params(&f[3].b)?,
        },
        "StrongAugmentationInfo" => ServerMessage::StrongAugmentationInfo {
            group: std::str::from_utf8(&f[0].b).ok()?,
            x_pub: point(&f[1].b)?,
            blinded_salt: point(&f[2].b)?,
            pbkdf_params: params(&f[3].b)?,
        },
        "PublicKey" => ServerMessage::PublicKey(point(&f[0].b)?),
        _ => ServerMessage::Authenticator(f[0].b[..].try_into().ok()?),
    };
    let sent = sm(&m);
    let b = guard(|| match w {
        Wire::Bincode => bincode::serialize(&m).map_err(|e| e.to_string()),
        _ => to_postcard(&m, &sent),
    });
    Some((sent, b))
}

fn read<const K: usize>(client: bool, w: Wire, b: &[u8]) -> Option<Result<M, String>> {
    guard(|| match (client, w) {
        (true, Wire::Bincode) => bincode::deserialize::<ClientMessage<'_, K>>(b).map(|m| cm(&m)).map_err(|e| e.to_string()),
        (true, _) => postcard::from_bytes::<ClientMessage<'_, K>>(b).map(|m| cm(&m)).map_err(|e| e.to_string()),
        (false, Wire::Bincode) => bincode::deserialize::<ServerMessage<'_, K>>(b).map(|m| sm(&m)).map_err(|e| e.to_string()),
        (false, _) => postcard::from_bytes::<ServerMessage<'_, K>>(b).map(|m| sm(&m)).map_err(|e| e.to_string()),
    })
}

macro_rules! with_k {
    ($k:expr, $b:ident, $e:expr) => {
        crate::with_buf!($k, $b, $e, [1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 1000])
    };
}

pub fn conformance(a: &Args, file: &str, rep: &mut Report) {
    const C: &[&str] = &["Nonce", "Username", "StrongUsername", "PublicKey", "Authenticator", "Registration", "StrongRegistration"];
    const S: &[&str] = &["Nonce", "AugmentationInfo", "StrongAugmentationInfo", "PublicKey", "Authenticator"];
    let rows = tlc_lines(file);
    rep.add("message_shapes", rows.len() as u64);
    let rounds = a.num("rounds", 1);
    let r = parallel(rows.len() * rounds * 2, |i, rep| {
        if rep.total_findings > 30 {
            return;
        }
        let w = if i % 2 == 0 { Wire::Bincode } else { Wire::Postcard };
        let j = &rows[i / 2 % rows.len()];
        let mut r = Prng::new(&[a.seed(), i as u64, 71]);
        let (client, kind) = (j.get("side").s() == "client", j.get("kind").s());
        let types = j.get("types").strs();
        let mut f: Vec<Fld> =
            types.iter().zip(j.get("fields").arr()).map(|(t, v)| Fld { t: t.clone(), b: field(t, v, &mut r), over: false }).collect();
        let k = if kind == "Nonce" { f[0].b.len() } else { *r.pick(&[16, 32]) };
        let sent = with_k!(k, K, if client { write_client::<K>(kind, &f, w) } else { write_server::<K>(kind, &f, w) });
        let rd = |b: &[u8]| with_k!(k, K, read::<K>(client, w, b));
        let (sent, bytes) = sent.expect("a field that should be valid");
        let mut bad = vec![];
        let what = format!(
            "{w:?} {} {kind} with {}",
            j.get("side").s(),
            f.iter().map(|x| format!("{} {}", x.t, show_bytes(&x.b))).collect::<Vec<_>>().join(", ")
        );
        let index = if client { C } else { S }.iter().position(|x| *x == kind).unwrap();
        let fault = j.get("fault").s();
        rep.count("replayed");
        match bytes {
            Some(Ok(bytes)) if fault == "none" => {
                rep.count("round_trips");
                match rd(&bytes) {
                    Some(Ok(m)) if m == sent => {}
                    x => bad.push(format!("{what}: is read back as {x:?}")),
                }
                let step = 1 + bytes.len() / 120;
                let mut n = r.below(step);
                while n < bytes.len() {
                    match rd(&bytes[..n]) {
                        None => bad.push(format!("{what}: reading the first {n} bytes panics")),
                        Some(Ok(m)) => bad.push(format!("{what}: the first {n} bytes are read as {m:?}")),
                        _ => {}
                    }
                    rep.count("malformed_messages");
                    n += step;
                }
            }
            // only where the layout is the one known here
            Some(Ok(bytes)) if encode(w, index, &f, &mut r) != bytes => rep.count("unknown_layout"),
            Some(Ok(_)) => {
                let b = if fault == "kind" {
                    let n = *r.pick(&[if client { C } else { S }.len(), 100, 127, 200, 255, 1000]);
                    encode(w, n, &f, &mut r)
                } else {
                    break_field(&mut f[j.get("at").n() as usize - 1], fault, &mut r);
                    encode(w, index, &f, &mut r)
                };
                rep.count("malformed_messages");
                match rd(&b) {
                    None => bad.push(format!("{what}: with the fault {fault}, reading {} panics", hexs(&b))),
                    Some(Ok(m)) => bad.push(format!("{what}: with the fault {fault}, {} is read as {m:?}", hexs(&b))),
                    _ => {}
                }
            }
            x => bad.push(format!("{what} cannot be serialised: {x:?}")),
        }
        if !bad.is_empty() {
            bad.truncate(4);
            rep.finding(obj! {"what" => bad, "row" => j.clone()});
        } else if i % 5003 == 5 {
            rep.sample(j.clone());
        }
    });
    rep.merge(r);
}
