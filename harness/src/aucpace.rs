//! Replays behaviours of spec/AuCPace*.tla into the aucpace crate.

pub use crate::base::*;
use crate::hasher::{compute, take_log, Out, TH, TP};
use crate::json::{tlc_lines, J};
use crate::{obj, with_buf};
use crate::prng::{name_seed, Prng};
use crate::report::{hex, hexs, Report};
use crate::strings::{profile, sweeps, Conc, Profile};
use crate::tape::{Segment, Tape};
use crate::term::{Terms, T};
use crate::util::{guard, parallel, Args};
use ::aucpace::client::*;
use ::aucpace::server::*;
use ::aucpace::{Database, Error, PartialAugDatabase, StrongDatabase};
pub use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as BASE;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use digest::Digest;
use password_hash::{ParamsString, SaltString};
use rand_core::OsRng;
use sha2::Sha512;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wire {
    Direct,
    Bincode,
    Postcard,
}

pub fn to_postcard(m: &impl serde::Serialize, sent: &M) -> Result<Vec<u8>, String> {
    let n = match sent {
        M::User(u) | M::Strong(u, _) => u.len(),
        M::Reg { user, .. } | M::SReg { user, .. } => user.len(),
        _ => 0,
    };
    let mut b = vec![0; n + 2000];
    postcard::to_slice(m, &mut b).map(|b| b.to_vec()).map_err(|e| e.to_string())
}

/// The message as it arrives; what the serialisation did wrong, if anything, in `bad`.
pub fn ship_c<const K: usize>(m: &ClientMessage<'_, K>, w: Wire, bad: &mut Vec<String>, rep: &mut Report, r: &mut Prng) -> M {
    let sent = cm(m);
    let bytes = match w {
        Wire::Direct => return sent,
        Wire::Bincode => guard(|| bincode::serialize(m).map_err(|e| e.to_string())),
        Wire::Postcard => guard(|| to_postcard(m, &sent)),
    };
    let b = match bytes {
        Some(Ok(b)) => b,
        x => {
            bad.push(format!("{w:?} cannot serialise {sent:?}: {x:?}"));
            return sent;
        }
    };
    let dec = |b: &[u8]| -> Option<Result<M, String>> {
        guard(|| match w {
            Wire::Bincode => bincode::deserialize::<ClientMessage<'_, K>>(b).map(|m| cm(&m)).map_err(|e| e.to_string()),
            _ => postcard::from_bytes::<ClientMessage<'_, K>>(b).map(|m| cm(&m)).map_err(|e| e.to_string()),
        })
    };
    receive(&sent, &b, dec, w, bad, rep, r)
}

pub fn ship_s<const K: usize>(m: &ServerMessage<'_, K>, w: Wire, bad: &mut Vec<String>, rep: &mut Report, r: &mut Prng) -> M {
    let sent = sm(m);
    let bytes = match w {
        Wire::Direct => return sent,
        Wire::Bincode => guard(|| bincode::serialize(m).map_err(|e| e.to_string())),
        Wire::Postcard => guard(|| to_postcard(m, &sent)),
    };
    let b = match bytes {
        Some(Ok(b)) => b,
        x => {
            bad.push(format!("{w:?} cannot serialise {sent:?}: {x:?}"));
            return sent;
        }
    };
    let dec = |b: &[u8]| -> Option<Result<M, String>> {
        guard(|| match w {
            Wire::Bincode => bincode::deserialize::<ServerMessage<'_, K>>(b).map(|m| sm(&m)).map_err(|e| e.to_string()),
            _ => postcard::from_bytes::<ServerMessage<'_, K>>(b).map(|m| sm(&m)).map_err(|e| e.to_string()),
        })
    };
    receive(&sent, &b, dec, w, bad, rep, r)
}

fn receive(sent: &M, b: &[u8], dec: impl Fn(&[u8]) -> Option<Result<M, String>>, w: Wire, bad: &mut Vec<String>, rep: &mut Report, r: &mut Prng) -> M {
    let got = dec(b);
    rep.count("messages_serialised");
    let res = match got {
        Some(Ok(m)) => {
            if m != *sent {
                bad.push(format!("{w:?} changed the message {sent:?} into {m:?}"));
            }
            m
        }
        x => {
            bad.push(format!("{w:?} cannot deserialise {} of {sent:?}: {x:?}", hexs(b)));
            return sent.clone();
        }
    };
    // malformed bytes
    for k in 0..6 {
        let mut c = b.to_vec();
        match k {
            0 => c.truncate(r.below(c.len())),
            1 => {
                let i = r.below(c.len());
                c[i] ^= 1 << r.below(8);
            }
            2 => {
                let i = r.below(c.len());
                c[i] = *r.pick(&[0u8, 0x7f, 0x80, 0xff]);
            }
            3 => c = r.bytes(b.len()),
            4 => {
                // within the first bytes, where the kind and the lengths are
                let i = r.below(c.len().min(16));
                c[i] = r.u64() as u8;
            }
            _ => {
                let i = r.below(c.len());
                c[i..].fill(0xff);
            }
        }
        let short = k == 0;
        match dec(&c) {
            None => bad.push(format!("{w:?}: deserialising {} panics", hexs(&c))),
            // an encoding cut short is no encoding
            Some(Ok(m)) if short => bad.push(format!("{w:?}: deserialising {}, cut short from {sent:?}, gives {m:?}", hexs(&c))),
            _ => {}
        }
        rep.count("malformed_messages");
    }
    res
}

// ---------------------------------------------------------------- behaviours

#[derive(Default)]
pub struct Ev {
    pub op: String,
    pub s: String,
    pub src: String,
    pub from: String,
    pub how: String,
    pub user: Vec<String>,
    pub pw: Vec<String>,
    pub pre: Vec<String>,
    pub ci: Vec<String>,
    pub par: String,
    pub named: String,
    pub bop: String,
    pub sop: String,
    pub pop: String,
    pub known: bool,
    pub status: String,
    pub out: Vec<T>,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Cfg {
    pub strong: bool,
    pub partial: bool,
    pub pre: bool,
    pub cexp: bool,
    pub sexp: bool,
}

pub struct Beh {
    pub cfg: Cfg,
    pub evs: Vec<Ev>,
    /// the ssid, PRS and such terms
    pub strs: Vec<Vec<String>>,
    pub text: J,
}

fn read_term(j: &J, tab: &[T], terms: &mut Terms) -> T {
    if !j.get("r").is_null() {
        return tab[j.get("r").n() as usize - 1].clone();
    }
    let v = j.get("v").strs();
    let a = j.get("a").arr().iter().map(|x| read_term(x, tab, terms)).collect();
    let e = j.get("e").arr().iter().map(|x| (read_term(x.get("t"), tab, terms), x.get("n").n())).collect();
    terms.mk(j.get("k").s(), v, a, e)
}

pub fn read_behaviours(path: &str, terms: &mut Terms) -> Vec<Beh> {
    let mut out = Vec::new();
    for j in tlc_lines(path) {
        let mut tab: Vec<T> = vec![];
        for t in j.get("tab").arr() {
            let t = read_term(t, &tab, terms);
            tab.push(t);
        }
        let mut b = Beh { cfg: Cfg::default(), evs: vec![], strs: vec![], text: slim(&j) };
        for e in j.get("ev").arr() {
            let s = |k: &str| match e.get(k) {
                J::Str(s) => s.clone(),
                _ => String::new(),
            };
            let l = |k: &str| match e.get(k) {
                J::Arr(_) => e.get(k).strs(),
                _ => vec![],
            };
            if e.get("op").s() == "cfg" {
                let c = e.get("cfg");
                b.cfg = Cfg {
                    strong: c.get("strong").b(),
                    partial: c.get("partial").b(),
                    pre: c.get("pre").b(),
                    cexp: c.get("cexp").b(),
                    sexp: c.get("sexp").b(),
                };
                continue;
            }
            let ev = Ev {
                op: s("op"),
                s: s("s"),
                src: s("src"),
                from: s("from"),
                how: s("how"),
                user: l("user"),
                pw: l("pw"),
                pre: l("pre"),
                ci: l("ci"),
                par: s("par"),
                named: s("named"),
                bop: s("bop"),
                sop: s("sop"),
                pop: s("pop"),
                known: e.get("known").b(),
                status: if e.get("status").is_null() { "Ok".into() } else { s("status") },
                out: e.get("out").arr().iter().map(|x| read_term(x, &tab, terms)).collect(),
            };
            for st in [&ev.user, &ev.pw, &ev.pre, &ev.ci] {
                if !b.strs.contains(st) {
                    b.strs.push(st.clone());
                }
            }
            b.evs.push(ev);
        }
        // every string in the terms
        let mut seen = std::collections::HashSet::new();
        for t in b.evs.iter().flat_map(|e| e.out.iter()).chain(tab.iter()) {
            strings_in(t, &mut seen, &mut b.strs);
        }
        out.push(b);
    }
    out
}

fn strings_in(t: &T, seen: &mut std::collections::HashSet<u32>, out: &mut Vec<Vec<String>>) {
    if !seen.insert(t.id) {
        return;
    }
    if t.k == "str" && !out.contains(&t.v) {
        out.push(t.v.clone());
    }
    for x in &t.a {
        strings_in(x, seen, out);
    }
    for (x, _) in &t.e {
        strings_in(x, seen, out);
    }
}

/// the behaviour without its terms, for reports
fn slim(j: &J) -> J {
    let evs = j.get("ev").arr().iter().map(|e| match e {
        J::Obj(v) => J::Obj(v.iter().filter(|(k, x)| k != "out" && k != "d" && *x != J::Arr(vec![])).cloned().collect()),
        x => x.clone(),
    });
    J::Arr(evs.collect())
}

// ---------------------------------------------------------------- evaluation of terms

/// Bytes, scalars and points of the atoms of a behaviour, and the values of its terms by the
/// formulas of the specification.
pub struct Env<'a, D> {
    pub strs: &'a HashMap<Vec<String>, Vec<u8>>,
    pub hasher: Out,
    pub params: &'a HashMap<String, String>,
    pub bytes: HashMap<u32, Vec<u8>>,
    pub scalars: HashMap<u32, Scalar>,
    pub points: HashMap<u32, Pt>,
    /// (atom, base) -> product of unknown exponents with known bases
    pub decoys: HashMap<(u32, u32), Pt>,
    pub d: std::marker::PhantomData<D>,
}

pub fn hn<D: Hash64>(n: u32, parts: &[&[u8]]) -> Vec<u8> {
    let mut h = D::default();
    Digest::update(&mut h, n.to_le_bytes());
    for p in parts {
        Digest::update(&mut h, p);
    }
    h.finalize().to_vec()
}

pub fn to_scalar(h: &[u8]) -> Option<Scalar> {
    match h.len() {
        32 => Some(Scalar::from_bytes_mod_order(h.try_into().unwrap())),
        64 => Some(Scalar::from_bytes_mod_order_wide(h.try_into().unwrap())),
        _ => None,
    }
}

pub fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            s.push(A[(v >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    s
}

pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    let (mut acc, mut n) = (0u32, 0);
    for c in s.bytes() {
        let d = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        };
        acc = (acc << 6 | d as u32) & 0xffff;
        n += 6;
        if n >= 8 {
            n -= 8;
            v.push((acc >> n) as u8);
        }
    }
    Some(v)
}

impl<D: Hash64> Env<'_, D> {
    pub fn bytes(&mut self, t: &T) -> Option<Vec<u8>> {
        if let Some(b) = self.bytes.get(&t.id) {
            return Some(b.clone());
        }
        let v = match &t.k[..] {
            "str" => self.strs.get(&t.v)?.clone(),
            "params" => self.params.get(&t.v[0])?.clone().into_bytes(),
            "hash" => {
                let n: u32 = t.v[0][1..].parse().ok()?;
                let parts: Option<Vec<Vec<u8>>> = t.a.iter().map(|x| self.bytes(x)).collect();
                let parts = parts?;
                hn::<D>(n, &parts.iter().map(|x| &x[..]).collect::<Vec<_>>())
            }
            "enc" => self.point(&t.a[0])?.compress().to_bytes().to_vec(),
            "elt" => self.point(t)?.compress().to_bytes().to_vec(),
            "pbkdf" => {
                let pw = self.bytes(&t.a[0])?;
                let salt = self.salt(&t.a[1])?;
                let par = String::from_utf8(self.bytes(&t.a[2])?).ok()?;
                compute(self.hasher, &pw, &salt, &par)
            }
            _ => return None,
        };
        self.bytes.insert(t.id, v.clone());
        Some(v)
    }
    /// a salt as the text that the hasher gets
    pub fn salt(&mut self, t: &T) -> Option<String> {
        let b = self.bytes(t)?;
        if t.k == "enc" {
            Some(b64(&b))
        } else {
            String::from_utf8(b).ok()
        }
    }
    pub fn atom(&mut self, t: &T) -> Option<Scalar> {
        if let Some(s) = self.scalars.get(&t.id) {
            return Some(*s);
        }
        if t.k != "w" {
            return None;
        }
        let h = self.bytes(&t.a[0])?;
        let s = to_scalar(&h)?;
        self.scalars.insert(t.id, s);
        Some(s)
    }
    pub fn mono(&mut self, e: &[(T, i64)]) -> Option<Scalar> {
        let mut s = Scalar::ONE;
        for (t, n) in e {
            let x = self.atom(t)?;
            let x = if *n < 0 { x.invert() } else { x };
            for _ in 0..n.abs() {
                s *= x;
            }
        }
        Some(s)
    }
    pub fn base(&mut self, t: &T) -> Option<Pt> {
        if let Some(p) = self.points.get(&t.id) {
            return Some(*p);
        }
        let p = match &t.k[..] {
            "B" => BASE,
            "map" => {
                let h = self.bytes(&t.a[0])?;
                Pt::from_uniform_bytes(&h.try_into().unwrap())
            }
            _ => return None,
        };
        self.points.insert(t.id, p);
        Some(p)
    }
    pub fn point(&mut self, t: &T) -> Option<Pt> {
        if let Some(p) = self.points.get(&t.id) {
            return Some(*p);
        }
        let mut sum = Pt::identity();
        for (lc, n) in &t.e {
            let m = &lc.a[0];
            let hidden: Vec<&(T, i64)> = m.e.iter().filter(|(x, _)| x.k == "decoyexp").collect();
            let p = if let [(x, 1)] = hidden[..] {
                let q = *self.decoys.get(&(x.id, lc.a[1].id))?;
                let rest: Vec<(T, i64)> = m.e.iter().filter(|(y, _)| y.id != x.id).cloned().collect();
                q * self.mono(&rest)?
            } else {
                self.base(&lc.a[1])? * self.mono(&m.e)?
            };
            let k = Scalar::from(n.unsigned_abs());
            sum += p * if *n < 0 { -k } else { k };
        }
        self.points.insert(t.id, sum);
        Some(sum)
    }
    /// learn the decoy exponent's product with its base from an element observed
    pub fn learn_decoy(&mut self, t: &T, p: Pt) {
        if let [(lc, 1)] = &t.e[..] {
            if let Some((x, 1)) = lc.a[0].e.iter().find(|(x, _)| x.k == "decoyexp") {
                let rest: Vec<(T, i64)> = lc.a[0].e.iter().filter(|(y, _)| y.id != x.id).cloned().collect();
                if let Some(s) = self.mono(&rest) {
                    self.decoys.entry((x.id, lc.a[1].id)).or_insert(p * s.invert());
                }
            }
        }
    }
}

// ---------------------------------------------------------------- running

pub const BUFS: &[usize] = &[16, 64, 100, 256, 1024, 5000, 140_000];

macro_rules! bufs {
    ($size:expr, $b:ident, $e:expr) => {
        with_buf!($size, $b, $e, [16, 64, 100, 256, 1024, 5000, 140_000])
    };
}

/// holds salts for as long as a run
#[derive(Default)]
pub struct Salts(RefCell<Vec<Box<SaltString>>>);
impl Salts {
    pub fn keep(&self, s: SaltString) -> &SaltString {
        let b = Box::new(s);
        let p: *const SaltString = &*b;
        self.0.borrow_mut().push(b);
        // the box is neither moved from nor dropped before self
        unsafe { &*p }
    }
}

#[derive(Clone)]
pub struct Case {
    pub prof: Profile,
    pub hasher: Out,
    pub wire: Wire,
    pub seed: u64,
    /// other randomness of the sessions
    pub ses: u64,
    /// a change to the authenticators delivered (even: to the server, odd: to the client)
    pub edit: Option<usize>,
    pub params: HashMap<String, String>,
    /// the registrations are by another implementation, with salts of other lengths
    pub foreign: bool,
}

pub struct Obs<'a> {
    pub ev: usize,
    pub status: String,
    /// what was observed, with the term it must have
    pub outs: Vec<(&'a T, Vec<u8>)>,
    pub seg: Segment,
    pub asked: Vec<crate::hasher::Asked>,
}

pub struct Run<'a, 's, D> {
    pub obs: Vec<Obs<'a>>,
    pub env: Env<'s, D>,
    /// registration messages
    pub regs: Vec<(usize, M)>,
    /// what serialisation did wrong
    pub wire_bad: Vec<String>,
    /// session keys and what authenticators were given
    pub keys: HashMap<String, Vec<u8>>,
    pub object_segs: Vec<Segment>,
    /// the messages of the server's augmentation layer
    pub infos: Vec<(usize, M)>,
    pub auths: HashMap<String, Vec<u8>>,
    /// session, what, where on the session's tape the secret came from
    pub wins: Vec<(String, String, usize, usize)>,
    /// session, what: secrets whose origin was not found
    pub lost: Vec<(usize, String)>,
}

/// strings of the behaviour as bytes; None if this profile cannot tell them apart
pub fn concretise(b: &[Vec<String>], prof: &Profile, max: usize) -> Option<HashMap<Vec<String>, Vec<u8>>> {
    let mut conc = Conc::new(prof.clone());
    conc.max_len = max;
    let mut m = HashMap::new();
    let mut seen: HashMap<Vec<u8>, ()> = HashMap::new();
    for s in b {
        let v = conc.string(s)?;
        if seen.insert(v.clone(), ()).is_some() {
            return None;
        }
        m.insert(s.clone(), v);
    }
    Some(m)
}

fn tamper_point(p: Pt, how: &str, adv: &mut impl FnMut() -> Pt, k: Scalar, zero: usize) -> Pt {
    match how {
        "none" | "" => p,
        // the neutral element in several representations
        "zero" => match zero % 4 {
            0 => Pt::identity(),
            1 => p - p,
            2 => p * Scalar::ZERO,
            _ => p + p * -Scalar::ONE,
        },
        "neg" => -p,
        "dbl" => p + p,
        "scaled" => p * k,
        "base" => BASE,
        "rand" => adv(),
        "plusB" => p + BASE,
        x => panic!("point operation {x}"),
    }
}

fn tamper_bytes(b: &[u8], how: &str, seed: u64) -> Option<Vec<u8>> {
    // the same change is the same wherever it is made
    let r = &mut Prng::new(&[seed, name_seed(how)]);
    let mut v = b.to_vec();
    let n = v.len();
    match how {
        "none" => {}
        "f" => v[0] ^= 1 << r.below(8),
        "l" => v[n - 1] ^= 1 << r.below(8),
        "m" => {
            let i = r.below(n);
            v[i] ^= 1 << r.below(8)
        }
        "zeros" => v.fill(0),
        "rev" => v.reverse(),
        x => panic!("change {x}"),
    }
    (how == "none" || v != b).then_some(v)
}

fn changed_terms<'a>(t: &'a T, k: &str, seen: &mut std::collections::HashSet<u32>, out: &mut Vec<&'a T>) {
    if !seen.insert(t.id) {
        return;
    }
    if t.k == k {
        out.push(t);
    }
    for x in &t.a {
        changed_terms(x, k, seen, out);
    }
    for (x, _) in &t.e {
        changed_terms(x, k, seen, out);
    }
}
pub fn find<'a>(ts: &'a [T], k: &str) -> Vec<&'a T> {
    let mut out = vec![];
    let mut seen = Default::default();
    for t in ts {
        changed_terms(t, k, &mut seen, &mut out);
    }
    out
}
fn find_rnd<'a>(ts: &'a [T], s: &str, n: &str) -> Option<&'a T> {
    find(ts, "rnd").into_iter().find(|t| t.v[0] == s && t.v[1] == n)
}

/// Finds where on the tape the scalar comes from: in what the step drew, in what the session drew
/// before, or in fewer bytes than a full-range scalar needs.
fn hunt(tape: &Tape, seg: &Segment, mut ok: impl FnMut(&Scalar) -> bool) -> Option<(Scalar, usize, usize)> {
    let all = tape.since(0);
    let near = seg.scalars().into_iter().take(400).map(|(s, o, w)| (s, o + seg.at, w));
    let far = std::iter::once(()).flat_map(|_| all.scalars().into_iter().take(1500));
    let weak = std::iter::once(()).flat_map(|_| seg.weak_scalars().into_iter().take(600).map(|(s, o, w)| (s, o + seg.at, w)));
    near.chain(far).chain(weak).find(|(s, _, _)| ok(s))
}

/// an authenticator that is not the given one
fn edit_auth(a: &[u8], k: usize, r: &mut Prng) -> Option<Vec<u8>> {
    let mut v = a.to_vec();
    let n = v.len();
    match k {
        0..=511 => v[k / 8] ^= 1 << (k % 8),
        // two bytes changed alike, opposite changes, bytes exchanged
        512..=543 => {
            let (i, j) = (r.below(n), r.below(n));
            let m = 1 + r.below(255) as u8;
            v[i] ^= m;
            v[j] ^= m;
        }
        544..=575 => {
            let (i, j) = (r.below(n), r.below(n));
            let m = 1 + r.below(255) as u8;
            v[i] = v[i].wrapping_add(m);
            v[j] = v[j].wrapping_sub(m);
        }
        576..=607 => {
            let (i, j) = (r.below(n), r.below(n));
            v.swap(i, j);
        }
        // right at the start or at the end only
        608..=671 => {
            let keep = k - 608;
            for b in v.iter_mut().skip(keep) {
                *b ^= 1 + r.below(255) as u8;
            }
        }
        672..=735 => {
            let keep = k - 672;
            let m = n - keep;
            for b in v.iter_mut().take(m) {
                *b ^= 1 + r.below(255) as u8;
            }
        }
        736 => v.fill(0),
        737 => v.fill(0xff),
        738 => v.iter_mut().for_each(|b| *b = !*b),
        739 => v.reverse(),
        740 => v.rotate_left(1),
        741 => v.rotate_left(32),
        742 => v[32..].fill(0),
        743 => v[..32].fill(0),
        744 => v.iter_mut().for_each(|b| *b ^= 0x80),
        _ => v = r.bytes(n),
    }
    (v != a).then_some(v)
}
pub const EDITS: usize = 752;

/// Runs a behaviour. `explain`: find out which random values the code drew.
pub fn replay<'a, 's, D: Hash64, R: Source, const K: usize>(
    b: &'a Beh,
    case: &'s Case,
    strs: &'s HashMap<Vec<String>, Vec<u8>>,
    explain: bool,
    rep: &mut Report,
) -> Option<Run<'a, 's, D>> {
    let mut r = Prng::new(&[case.seed, case.prof.seed, 77]);
    let mut rw = Prng::new(&[case.seed, case.prof.seed, 78]);
    let salts = Salts::default();
    let mut run = Run {
        obs: vec![],
        env: Env {
            strs,
            hasher: case.hasher,
            params: &case.params,
            bytes: HashMap::new(),
            scalars: HashMap::new(),
            points: HashMap::new(),
            decoys: HashMap::new(),
            d: std::marker::PhantomData,
        },
        regs: vec![],
        wire_bad: vec![],
        keys: HashMap::new(),
        object_segs: vec![],
        infos: vec![],
        auths: HashMap::new(),
        wins: vec![],
        lost: vec![],
    };
    let hasher = TH(case.hasher);
    take_log();
    // one client object for both clients, or one each
    let shared = r.chance(1, 2);
    let obj_tapes: Vec<Tape> = (0..3).map(|i| Tape::new(&[case.seed, case.prof.seed, 100 + i])).collect();
    let srv_tape = &obj_tapes[2];
    let mut clients: Vec<AuCPaceClient<D, TH, R, K>> = (0..2).map(|i| AuCPaceClient::new(R::of(&obj_tapes[i]))).collect();
    let mut server: AuCPaceServer<D, R, K> = R::run(srv_tape, || guard(|| AuCPaceServer::new(R::of(srv_tape))))?;
    let cidx = |s: &str| if shared || s.ends_with('1') { 0 } else { 1 };
    let ses_tapes: HashMap<&str, Tape> =
        ["c1", "c2", "s1", "s2"].iter().enumerate().map(|(i, s)| (*s, Tape::new(&[case.seed, case.prof.seed, 200 + i as u64 + 1000 * case.ses]))).collect();
    let mut cl: HashMap<&str, C<'_, D, K>> = HashMap::new();
    let mut sv: HashMap<&str, Sv<D, R, K>> = HashMap::new();
    let mut db = Db::default();
    let mut nonces: HashMap<&str, Vec<u8>> = HashMap::new();
    let mut names: HashMap<&str, (Vec<u8>, Option<Pt>)> = HashMap::new();
    let mut infos: HashMap<&str, M> = HashMap::new();
    let mut pubs: HashMap<&str, Pt> = HashMap::new();
    let zero = r.below(4);
    let adv_k = Scalar::from_bytes_mod_order_wide(&r.bytes(64).try_into().unwrap());
    let adv_salt = b64(&r.bytes(16));
    let bufsize = |n: usize, r: &mut Prng| -> Option<usize> {
        let fit: Vec<usize> = BUFS.iter().copied().filter(|b| *b >= n).collect();
        if fit.is_empty() || r.chance(1, 2) {
            None
        } else if r.chance(1, 2) {
            Some(fit[0])
        } else {
            let s = *r.pick(&fit);
            Some(if s > 5000 { fit[0] } else { s })
        }
    };
    let wire = case.wire;
    for (n, ev) in b.evs.iter().enumerate() {
        let s: &str = &ev.s;
        let mut o = Obs { ev: n, status: "Ok".into(), outs: vec![], seg: Segment::default(), asked: vec![] };
        macro_rules! step {
            // run code under test with a tape; stop the run where it panics
            ($tape:expr, $e:expr) => {{
                let t: &Tape = $tape;
                let at = t.len();
                let x = R::run(t, || guard(|| $e));
                o.seg = t.since(at);
                o.asked = take_log();
                match x {
                    Some(x) => x,
                    None => {
                        o.status = "panic".into();
                        run.obs.push(o);
                        continue;
                    }
                }
            }};
        }
        macro_rules! fallible {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(e) => {
                        o.status = estr(&e);
                        run.obs.push(o);
                        continue;
                    }
                }
            };
        }
        macro_rules! unexpected {
            ($m:expr) => {{
                o.status = format!("unexpected message {:?}", $m);
                run.obs.push(o);
                continue;
            }};
        }
        let bind_adv = |run: &mut Run<'a, 's, D>, name: &str, p: Pt| {
            for t in find(&ev.out, "adv") {
                if t.v[0] == name {
                    run.env.points.insert(t.id, p);
                }
            }
        };
        for t in find(&ev.out, "adv") {
            if t.v[0] == "k" {
                run.env.scalars.insert(t.id, adv_k);
            }
        }
        match &ev.op[..] {
            "reg" => {
                let (u, p) = (&strs[&ev.user], &strs[&ev.pw]);
                let par = TP(case.params[&ev.par].clone(), None);
                let ci = cidx(if n % 2 == 0 { "c1" } else { "c2" });
                let c = &mut clients[ci];
                let buf = bufsize(u.len() + p.len() + 1, &mut r);
                let res = step!(
                    &obj_tapes[ci],
                    match (b.cfg.strong, buf) {
                        (false, None) => c.register_alloc(u, p, par, hasher),
                        (false, Some(z)) => bufs!(z, B, c.register::<_, B>(u, p, par, hasher)),
                        (true, None) => c.register_alloc_strong(u, p, par, hasher),
                        (true, Some(z)) => bufs!(z, B, c.register_strong::<_, B>(u, p, par, hasher)),
                    }
                );
                let m = fallible!(res);
                let m = ship_c(&m, wire, &mut run.wire_bad, rep, &mut rw);
                run.regs.push((n, m.clone()));
                match m {
                    M::Reg { user, par, .. } if !b.cfg.strong && case.foreign => {
                        let n = 3 + r.below(46);
                        let salt = b64(&r.bytes(n));
                        let w = BASE * to_scalar(&compute(case.hasher, &[&u[..], b":", &p[..]].concat(), &salt, &par))?;
                        run.env.bytes.insert(ev.out[0].id, salt.clone().into_bytes());
                        let (Ok(salt), Ok(par)) = (SaltString::from_b64(&salt), par.parse()) else { return None };
                        db.store_verifier(&user, salt, None, w, par);
                    }
                    M::Reg { user, salt, par, w } if !b.cfg.strong => {
                        run.env.bytes.insert(ev.out[0].id, salt.clone().into_bytes());
                        o.outs.push((&ev.out[0], salt.clone().into_bytes()));
                        o.outs.push((&ev.out[1], w.compress().to_bytes().to_vec()));
                        o.outs.push((&ev.out[2], par.clone().into_bytes()));
                        let (Ok(salt), Ok(par)) = (SaltString::from_b64(&salt), par.parse()) else { return None };
                        db.store_verifier(&user, salt, None, w, par);
                    }
                    M::SReg { user, q, par, w } if b.cfg.strong => {
                        if let Some(t) = find_rnd(&ev.out, s, "q") {
                            run.env.scalars.insert(t.id, q);
                        }
                        o.outs.push((&ev.out[1], w.compress().to_bytes().to_vec()));
                        o.outs.push((&ev.out[2], par.clone().into_bytes()));
                        // the salt is what the hasher was given
                        if let [a] = &o.asked[..] {
                            if let Some(raw) = unb64(&a.salt) {
                                o.outs.push((&ev.out[0], raw));
                            }
                        }
                        let Ok(par) = par.parse() else { return None };
                        db.store_verifier_strong(&user, None, w, q, par);
                    }
                    m => unexpected!(m),
                }
            }
            "key" => {
                let (x, xp) = step!(srv_tape, server.generate_long_term_keypair());
                if let Some(t) = find_rnd(&ev.out, s, "x") {
                    run.env.scalars.insert(t.id, x);
                }
                o.outs.push((&ev.out[0], xp.compress().to_bytes().to_vec()));
                let _ = db.store_long_term_keypair(&strs[&ev.user], x, xp);
            }
            "zeroq" => {
                if let Some(x) = db.strong.get_mut(&strs[&ev.user]) {
                    x.1 = Scalar::ZERO;
                }
            }
            "zerokey" => {
                db.keys.insert(strs[&ev.user].clone(), (Scalar::ZERO, Pt::identity()));
            }
            "cstart" if b.cfg.pre => {
                let c = &mut clients[cidx(s)];
                let x = fallible!(step!(&obj_tapes[cidx(s)], c.begin_prestablished_ssid(&strs[&ev.pre])));
                cl.insert(s, C::Pre(x));
            }
            "cstart" => {
                let c = &mut clients[cidx(s)];
                let (st, m) = step!(&obj_tapes[cidx(s)], c.begin());
                cl.insert(s, C::Nonce(st));
                match ship_c(&m, wire, &mut run.wire_bad, rep, &mut rw) {
                    M::Nonce(v) => {
                        run.env.bytes.insert(ev.out[0].id, v.clone());
                        o.outs.push((&ev.out[0], v.clone()));
                        nonces.insert(s, v);
                    }
                    m => unexpected!(m),
                }
            }
            "sstart" if b.cfg.pre => {
                let x = fallible!(step!(srv_tape, server.begin_prestablished_ssid(&strs[&ev.pre])));
                sv.insert(s, Sv::Aug(x));
            }
            "sstart" => {
                let (st, m) = step!(srv_tape, server.begin());
                sv.insert(s, Sv::Nonce(st));
                match ship_s(&m, wire, &mut run.wire_bad, rep, &mut rw) {
                    M::Nonce(v) => {
                        run.env.bytes.insert(ev.out[0].id, v.clone());
                        o.outs.push((&ev.out[0], v.clone()));
                        nonces.insert(s, v);
                    }
                    m => unexpected!(m),
                }
            }
            "caug" => {
                let tape = &ses_tapes[s];
                let (u, p) = (&strs[&ev.user], &strs[&ev.pw]);
                let pre = match cl.remove(s) {
                    Some(C::Pre(x)) => x,
                    Some(C::Nonce(x)) => {
                        let v = tamper_bytes(nonces.get(&ev.src[..])?, &ev.how, case.seed ^ case.prof.seed)?;
                        bind_changed(&mut run.env, ev, &b.evs, &nonces, &v);
                        let v: [u8; K] = v.try_into().ok()?;
                        step!(tape, x.agree_ssid(v))
                    }
                    _ => continue,
                };
                let m;
                if b.cfg.strong {
                    let at = tape.len();
                    let (st, msg) = step!(tape, pre.start_augmentation_strong(u, p, &mut R::of(tape)));
                    o.seg = tape.since(at);
                    cl.insert(s, C::Strong(st));
                    m = ship_c(&msg, wire, &mut run.wire_bad, rep, &mut rw);
                } else {
                    let (st, msg) = step!(tape, pre.start_augmentation(u, p));
                    cl.insert(s, C::Aug(st));
                    m = ship_c(&msg, wire, &mut run.wire_bad, rep, &mut rw);
                }
                match m {
                    M::User(u) if !b.cfg.strong => {
                        names.insert(s, (u, None));
                    }
                    M::Strong(u, p) if b.cfg.strong => {
                        o.outs.push((&ev.out[0], p.compress().to_bytes().to_vec()));
                        if explain {
                            if let Some(t) = find_rnd(&ev.out, s, "r") {
                                let z = run.env.base(&ev.out[0].e[0].0.a[1])?;
                                match hunt(tape, &o.seg, |x| z * x == p) {
                                    Some((x, at, w)) => {
                                        run.env.scalars.insert(t.id, x);
                                        run.wins.push((s.into(), "r".into(), at, w));
                                    }
                                    None => run.lost.push((n, "r".into())),
                                }
                            }
                        }
                        names.insert(s, (u, Some(p)));
                    }
                    m => unexpected!(m),
                }
            }
            "sinfo" => {
                let tape = &ses_tapes[s];
                let aug = match sv.remove(s) {
                    Some(Sv::Aug(x)) => x,
                    Some(Sv::Nonce(x)) => {
                        let v = tamper_bytes(nonces.get(&ev.src[..])?, &ev.how, case.seed ^ case.prof.seed)?;
                        bind_changed(&mut run.env, ev, &b.evs, &nonces, &v);
                        let v: [u8; K] = v.try_into().ok()?;
                        step!(tape, x.agree_ssid(v))
                    }
                    _ => continue,
                };
                let (mut user, blinded) = names.get(&ev.named[..])?.clone();
                let from = b.evs.iter().find(|e| e.op == "caug" && e.s == ev.named)?;
                if from.user != ev.user {
                    user = strs[&ev.user].clone();
                }
                let rng = R::of(tape);
                let m;
                if b.cfg.strong {
                    let mut rp = None;
                    let bl = tamper_point(
                        blinded?,
                        &ev.bop,
                        &mut || {
                            let p = Pt::from_uniform_bytes(&r.bytes(64).try_into().unwrap());
                            rp = Some(p);
                            p
                        },
                        adv_k,
                        zero,
                    );
                    if let Some(p) = rp {
                        bind_adv(&mut run, s, p);
                    }
                    let (st, msg) = if b.cfg.partial {
                        fallible!(step!(tape, aug.generate_client_info_partial_strong(&user, bl, &db, rng)))
                    } else {
                        fallible!(step!(tape, aug.generate_client_info_strong(&user, bl, &db, rng)))
                    };
                    sv.insert(s, Sv::Cpace(st));
                    m = ship_s(&msg, wire, &mut run.wire_bad, rep, &mut rw);
                } else {
                    let (st, msg) = if b.cfg.partial {
                        step!(tape, aug.generate_client_info_partial_aug(&user, &db, rng))
                    } else {
                        step!(tape, aug.generate_client_info(&user, &db, rng))
                    };
                    sv.insert(s, Sv::Cpace(st));
                    m = ship_s(&msg, wire, &mut run.wire_bad, rep, &mut rw);
                }
                run.infos.push((n, m.clone()));
                let (x, par) = match &m {
                    M::Info { x, salt, par, .. } if !b.cfg.strong => {
                        if ev.out.len() > 1 {
                            o.outs.push((&ev.out[1], salt.clone().into_bytes()));
                            if ev.out[1].k == "decoysalt" {
                                run.env.bytes.insert(ev.out[1].id, salt.clone().into_bytes());
                            }
                        }
                        (*x, par.clone())
                    }
                    M::SInfo { x, bs, par, .. } if b.cfg.strong => {
                        if ev.out.len() > 1 {
                            o.outs.push((&ev.out[1], bs.compress().to_bytes().to_vec()));
                            run.env.learn_decoy(&ev.out[1], *bs);
                        }
                        (*x, par.clone())
                    }
                    m => unexpected!(m),
                };
                if !ev.out.is_empty() {
                    o.outs.push((&ev.out[0], x.compress().to_bytes().to_vec()));
                    o.outs.push((&ev.out[2], par.into_bytes()));
                    if let Some(t) = find(&ev.out[..1], "decoypk").first() {
                        run.env.points.insert(t.id, x);
                    }
                    if explain {
                        if let Some(t) = find_rnd(&ev.out[..1], s, "x") {
                            match hunt(tape, &o.seg, |v| BASE * v == x) {
                                Some((v, at, w)) => {
                                    run.env.scalars.insert(t.id, v);
                                    run.wins.push((s.into(), "x".into(), at, w));
                                }
                                None => run.lost.push((n, "x".into())),
                            }
                        }
                    }
                }
                infos.insert(s, m);
            }
            "ccpace" => {
                let tape = &ses_tapes[s];
                let Some(st) = cl.remove(s) else { continue };
                let Some(info) = infos.get(&ev.src[..]).cloned() else { continue };
                let mut rnd_pts: Vec<(String, Pt)> = vec![];
                let mut pt = |p: Pt, how: &str, name: String, r: &mut Prng| {
                    let mut rp = None;
                    let x = tamper_point(
                        p,
                        how,
                        &mut || {
                            let p = Pt::from_uniform_bytes(&r.bytes(64).try_into().unwrap());
                            rp = Some(p);
                            p
                        },
                        adv_k,
                        zero,
                    );
                    if let Some(p) = rp {
                        rnd_pts.push((name, p));
                    }
                    x
                };
                let need = {
                    let a = b.evs.iter().find(|e| e.op == "caug" && e.s == ev.s)?;
                    strs[&a.user].len() + strs[&a.pw].len() + 1
                };
                let buf = bufsize(need, &mut r);
                let res = match (st, info) {
                    (C::Aug(st), M::Info { x, salt, par, .. }) => {
                        let x = pt(x, &ev.how, s.to_string(), &mut r);
                        let salt = match &ev.sop[..] {
                            "none" => salt,
                            "r9" => adv_salt.clone(),
                            h => b64(&tamper_bytes(&unb64(&salt)?, h, case.seed ^ case.prof.seed)?),
                        };
                        for t in find(&ev.out[..], "changed") {
                            run.env.bytes.insert(t.id, salt.clone().into_bytes());
                        }
                        for t in find(&ev.out[..], "rnd") {
                            if t.v[0] == "adv" {
                                run.env.bytes.insert(t.id, salt.clone().into_bytes());
                            }
                        }
                        let par = TP(if ev.pop == "other" { case.params["B"].clone() } else { par }, None);
                        let salt = salts.keep(SaltString::from_b64(&salt).ok()?);
                        step!(
                            tape,
                            match buf {
                                None => st.generate_cpace_alloc(x, salt, par, hasher),
                                Some(z) => bufs!(z, B, st.generate_cpace::<_, B>(x, salt, par, hasher)),
                            }
                        )
                    }
                    (C::Strong(st), M::SInfo { x, bs, par, .. }) => {
                        let x = pt(x, &ev.how, s.to_string(), &mut r);
                        let bs = if ev.sop == "r9" { names.get(s)?.1? } else { pt(bs, &ev.sop, format!("{s}b"), &mut r) };
                        let par = TP(if ev.pop == "other" { case.params["B"].clone() } else { par }, None);
                        step!(
                            tape,
                            match buf {
                                None => st.generate_cpace_alloc(x, bs, par, hasher),
                                Some(z) => bufs!(z, B, st.generate_cpace::<B>(x, bs, par, hasher)),
                            }
                        )
                    }
                    _ => continue,
                };
                for (name, p) in rnd_pts {
                    bind_adv(&mut run, &name, p);
                }
                // the salt is what the hasher was given
                if let ([a], false) = (&o.asked[..], ev.out.is_empty()) {
                    if b.cfg.strong {
                        o.outs.push((&ev.out[0], unb64(&a.salt).unwrap_or_default()));
                    } else {
                        o.outs.push((&ev.out[0], a.salt.clone().into_bytes()));
                    }
                }
                cl.insert(s, C::Cpace(fallible!(res)));
            }
            "cpub" => {
                let Some(C::Cpace(st)) = cl.remove(s) else { continue };
                let tape = &ses_tapes[s];
                let (st, m) = step!(tape, st.generate_public_key(&strs[&ev.ci], &mut R::of(tape)));
                cl.insert(s, C::Key(st));
                match ship_c(&m, wire, &mut run.wire_bad, rep, &mut rw) {
                    M::Pub(p) => {
                        pubs.insert(s, p);
                        o.outs.push((&ev.out[0], p.compress().to_bytes().to_vec()));
                        if explain {
                            explain_key(&mut run, n, ev, tape, p, &o.seg, None);
                        }
                    }
                    m => unexpected!(m),
                }
            }
            "spub" => {
                let Some(Sv::Cpace(st)) = sv.remove(s) else { continue };
                let tape = &ses_tapes[s];
                let (st, m) = step!(tape, st.generate_public_key(&strs[&ev.ci]));
                sv.insert(s, Sv::Key(st));
                match ship_s(&m, wire, &mut run.wire_bad, rep, &mut rw) {
                    M::Pub(p) => {
                        pubs.insert(s, p);
                        o.outs.push((&ev.out[0], p.compress().to_bytes().to_vec()));
                        if explain {
                            let info = run.obs.iter().find(|x| b.evs[x.ev].op == "sinfo" && b.evs[x.ev].s == s).map(|x| x.seg.clone());
                            explain_key(&mut run, n, ev, tape, p, &o.seg, info.as_ref());
                        }
                    }
                    m => unexpected!(m),
                }
            }
            "crecv" | "srecv" => {
                let Some(p) = pubs.get(&ev.src[..]).copied() else { continue };
                let mut rp = None;
                let p = tamper_point(
                    p,
                    &ev.how,
                    &mut || {
                        let p = Pt::from_uniform_bytes(&r.bytes(64).try_into().unwrap());
                        rp = Some(p);
                        p
                    },
                    adv_k,
                    zero,
                );
                if let Some(p) = rp {
                    bind_adv(&mut run, s, p);
                }
                let tape = &ses_tapes[s];
                if ev.op == "crecv" {
                    let Some(C::Key(st)) = cl.remove(s) else { continue };
                    if b.cfg.cexp {
                        let (st, m) = fallible!(step!(tape, st.receive_server_pubkey(p)));
                        cl.insert(s, C::Exp(st));
                        match ship_c(&m, wire, &mut run.wire_bad, rep, &mut rw) {
                            M::Auth(v) => {
                                if !ev.out.is_empty() {
                                    o.outs.push((&ev.out[0], v.clone()));
                                }
                                run.auths.insert(s.into(), v);
                            }
                            m => unexpected!(m),
                        }
                    } else {
                        let k = fallible!(step!(tape, st.implicit_auth(p))).to_vec();
                        if !ev.out.is_empty() {
                            o.outs.push((&ev.out[0], k.clone()));
                        }
                        run.keys.insert(s.into(), k);
                    }
                } else {
                    let Some(Sv::Key(st)) = sv.remove(s) else { continue };
                    if b.cfg.sexp {
                        let st = fallible!(step!(tape, st.receive_client_pubkey(p)));
                        sv.insert(s, Sv::Exp(st));
                    } else {
                        let k = fallible!(step!(tape, st.implicit_auth(p))).to_vec();
                        if !ev.out.is_empty() {
                            o.outs.push((&ev.out[0], k.clone()));
                        }
                        run.keys.insert(s.into(), k);
                    }
                }
            }
            "sauth" => {
                let Some(Sv::Exp(st)) = sv.remove(s) else { continue };
                let Some(a) = run.auths.get(&ev.src[..]) else { continue };
                let a: [u8; 64] = match case.edit {
                    Some(e) if e % 2 == 0 => edit_auth(a, e / 2, &mut r)?,
                    _ => tamper_bytes(a, &ev.how, case.seed ^ case.prof.seed)?,
                }
                .try_into()
                .unwrap();
                let (k, m) = fallible!(step!(&ses_tapes[s], st.receive_client_authenticator(a)));
                run.keys.insert(s.into(), k.to_vec());
                match ship_s(&m, wire, &mut run.wire_bad, rep, &mut rw) {
                    M::Auth(v) => {
                        if !ev.out.is_empty() {
                            o.outs.push((&ev.out[0], k.to_vec()));
                            o.outs.push((&ev.out[1], v.clone()));
                        }
                        run.auths.insert(s.into(), v);
                    }
                    m => unexpected!(m),
                }
            }
            "cauth" => {
                let Some(C::Exp(st)) = cl.remove(s) else { continue };
                let Some(a) = run.auths.get(&ev.src[..]) else { continue };
                let a: [u8; 64] = match case.edit {
                    Some(e) if e % 2 == 1 => edit_auth(a, e / 2, &mut r)?,
                    _ => tamper_bytes(a, &ev.how, case.seed ^ case.prof.seed)?,
                }
                .try_into()
                .unwrap();
                let k = fallible!(step!(&ses_tapes[s], st.receive_server_authenticator(a)));
                run.keys.insert(s.into(), k.to_vec());
                if !ev.out.is_empty() {
                    o.outs.push((&ev.out[0], k.to_vec()));
                }
            }
            x => panic!("event {x}"),
        }
        run.obs.push(o);
    }
    run.object_segs = obj_tapes.iter().map(|t| t.since(0)).collect();
    Some(run)
}

/// the value of a changed nonce, wherever the behaviour mentions it
fn bind_changed<D>(env: &mut Env<'_, D>, ev: &Ev, evs: &[Ev], nonces: &HashMap<&str, Vec<u8>>, v: &[u8]) {
    if ev.how == "none" {
        return;
    }
    let _ = nonces;
    for e in evs {
        for t in find(&e.out, "changed") {
            let inner = &t.a[0];
            if inner.k == "rnd" && inner.v[0] == ev.src && t.a[1].k == ev.how && (inner.v[1] == "t" || inner.v[1] == "s") {
                env.bytes.entry(t.id).or_insert_with(|| v.to_vec());
            }
        }
    }
}

/// Finds the exponent (and the password-related string, where it is random) behind a public key.
fn explain_key<D: Hash64>(run: &mut Run<'_, '_, D>, n: usize, ev: &Ev, tape: &Tape, p: Pt, seg: &Segment, info: Option<&Segment>) {
    let s: &str = &ev.s;
    let Some((lc, _)) = ev.out[0].e.first() else { return };
    let Some(y) = find_rnd(&ev.out, s, "y") else { return };
    let base = &lc.a[1];
    let prs = &base.a[0].a[1];
    let env = &mut run.env;
    if prs.k == "rnd" && !env.bytes.contains_key(&prs.id) {
        let Some(info) = info else { return };
        // few candidates for the exponent, the windows of the earlier step for the PRS
        for (w, at) in info.windows(32).into_iter().take(200) {
            env.bytes.insert(prs.id, w);
            env.points.remove(&base.id);
            env.bytes.remove(&base.a[0].id);
            if let Some(g) = env.base(base) {
                if let Some((x, o, w)) = seg.scalars().into_iter().take(4).find(|(x, _, _)| g * x == p) {
                    env.scalars.insert(y.id, x);
                    run.wins.push((s.into(), "prs".into(), at + info.at, 32));
                    run.wins.push((s.into(), "y".into(), o + seg.at, w));
                    return;
                }
            }
        }
        env.bytes.remove(&prs.id);
        env.points.remove(&base.id);
        env.bytes.remove(&base.a[0].id);
        run.lost.push((n, "prs".into()));
        return;
    }
    if let Some(g) = env.base(base) {
        match hunt(tape, seg, |x| g * x == p) {
            Some((x, at, w)) => {
                env.scalars.insert(y.id, x);
                run.wins.push((s.into(), "y".into(), at, w));
            }
            None => run.lost.push((n, "y".into())),
        }
    }
}

// ---------------------------------------------------------------- judging

fn ev_of<'a>(b: &'a Beh, op: &str, s: &str) -> Option<(usize, &'a Ev)> {
    b.evs.iter().enumerate().find(|(_, e)| e.op == op && e.s == s)
}

fn obs_of<'a, 'b, D>(b: &Beh, run: &'b Run<'a, '_, D>, op: &str, s: &str) -> Option<&'b Obs<'a>> {
    let (n, _) = ev_of(b, op, s)?;
    run.obs.iter().find(|o| o.ev == n)
}

/// the adversary left the pair alone and connected the two
fn clean(b: &Beh, c: &str, s: &str) -> bool {
    let n = |x: &str| x.is_empty() || x == "none";
    b.evs.iter().filter(|e| e.s == c || e.s == s).all(|e| {
        let peer = if e.s == c { s } else { c };
        n(&e.how)
            && n(&e.bop)
            && n(&e.sop)
            && n(&e.pop)
            && match &e.op[..] {
                "caug" => b.cfg.pre || e.src == peer,
                "sinfo" => {
                    (b.cfg.pre || e.src == peer)
                        && e.named == peer
                        && ev_of(b, "caug", c).is_some_and(|(_, x)| x.user == e.user)
                }
                "ccpace" | "crecv" | "srecv" | "sauth" | "cauth" => e.src == peer,
                _ => true,
            }
    })
}

/// the registration that the server's session uses
fn registration<'a>(b: &'a Beh, s: &str) -> Option<(usize, &'a Ev)> {
    let (at, info) = ev_of(b, "sinfo", s)?;
    b.evs[..at].iter().enumerate().rev().find(|(_, e)| e.op == "reg" && e.user == info.user)
}

/// a clean run of a registered user, both sides with the same inputs
fn honest(b: &Beh, c: &str, s: &str) -> bool {
    let ok = || {
        let (_, a) = ev_of(b, "caug", c)?;
        let (_, i) = ev_of(b, "sinfo", s)?;
        let (_, r) = registration(b, s)?;
        let ci = |op, x| ev_of(b, op, x).map(|(_, e)| e.ci.clone());
        let pre = |op, x| ev_of(b, op, x).map(|(_, e)| e.pre.clone());
        Some(
            i.known
                && r.pw == a.pw
                && ci("cpub", c) == ci("spub", s)
                && pre("cstart", c) == pre("sstart", s)
                && b.evs.iter().all(|e| e.status == "Ok" || (e.s != c && e.s != s)),
        )
    };
    clean(b, c, s) && ok() == Some(true)
}

/// where a side's session key appears
fn key_op(b: &Beh, s: &str) -> &'static str {
    match (s.starts_with('c'), b.cfg.cexp, b.cfg.sexp) {
        (true, true, _) => "cauth",
        (true, false, _) => "crecv",
        (false, _, true) => "sauth",
        (false, _, false) => "srecv",
    }
}

/// the side's session key: its term, and the bytes of the implementation
fn key_of<'a, D>(b: &'a Beh, run: &Run<'a, '_, D>, s: &str) -> (Option<&'a T>, Option<Vec<u8>>) {
    let t = ev_of(b, key_op(b, s), s).filter(|(_, e)| e.status == "Ok").and_then(|(_, e)| e.out.first());
    (t, run.keys.get(s).cloned())
}

const PARTIES: [&str; 4] = ["c1", "c2", "s1", "s2"];

/// what the two sides put into the SSID
fn ssid_of(b: &Beh, s: &str) -> Vec<String> {
    let c = s.starts_with('c');
    let start = ev_of(b, if c { "cstart" } else { "sstart" }, s);
    if b.cfg.pre {
        return start.map(|(_, e)| e.pre.clone()).unwrap_or_default();
    }
    let got = ev_of(b, if c { "caug" } else { "sinfo" }, s)
        .map(|(_, e)| format!("{} {}", e.src, if e.how == "none" { "" } else { &e.how }))
        .unwrap_or_default();
    let own = format!("{s} ");
    if c {
        vec![got, own]
    } else {
        vec![own, got]
    }
}

/// nonces are long enough not to coincide, or do not
fn nonces_differ<D>(b: &Beh, run: &Run<'_, '_, D>) -> bool {
    let mut v: Vec<&Vec<u8>> = vec![];
    for o in &run.obs {
        if matches!(&b.evs[o.ev].op[..], "cstart" | "sstart") {
            v.extend(o.outs.iter().map(|x| &x.1));
        }
    }
    let short = v.iter().any(|x| x.len() < 8);
    if !short {
        return true;
    }
    // the changed ones, too
    let mut all: Vec<(u32, Vec<u8>)> = run.env.bytes.iter().map(|(k, v)| (*k, v.clone())).filter(|x| x.1.len() < 8).collect();
    let n = all.len();
    all.sort_by(|a, b| a.1.cmp(&b.1));
    all.dedup_by(|a, b| a.1 == b.1);
    all.len() == n
}

fn show(e: &Ev) -> String {
    format!("{} of {}", e.op, e.s)
}

pub fn judge<D: Hash64, R: Source, const K: usize>(prop: &str, b: &Beh, case: &Case, strs: &HashMap<Vec<String>, Vec<u8>>, rep: &mut Report) -> Option<Vec<String>> {
    let explain = matches!(prop, "A05" | "A09" | "A10");
    let mut run = replay::<D, R, K>(b, case, strs, explain, rep)?;
    if !nonces_differ(b, &run) {
        return None;
    }
    let mut bad = vec![];
    let pairs: Vec<(&str, &str)> = ["c1", "c2"].iter().flat_map(|c| ["s1", "s2"].iter().map(move |s| (*c, *s))).collect();
    match prop {
        "A01" => {
            for (c, s) in pairs {
                if !honest(b, c, s) {
                    continue;
                }
                rep.count("honest_pairs");
                for (n, e) in b.evs.iter().enumerate() {
                    if e.s == c || e.s == s {
                        match run.obs.iter().find(|o| o.ev == n) {
                            Some(o) if o.status == "Ok" => {}
                            Some(o) => bad.push(format!("{} of an honest run ends with {}", show(e), o.status)),
                            None => {}
                        }
                    }
                }
                let ((ct, cb), (st, sb)) = (key_of(b, &run, c), key_of(b, &run, s));
                if let (Some(ct), Some(st)) = (ct, st) {
                    assert!(ct.id == st.id, "specification");
                    match (cb, sb) {
                        (Some(x), Some(y)) if x == y && x.len() == 64 => {}
                        (x, y) => bad.push(format!(
                            "the session keys of {c} and {s} are {} and {}",
                            x.map_or("missing".into(), |x| hex(&x)),
                            y.map_or("missing".into(), |x| hex(&x))
                        )),
                    }
                }
            }
        }
        "A02" | "A06" => {
            let of_interest = |c: &str, s: &str| prop == "A02" || ssid_of(b, c) != ssid_of(b, s);
            for (c, s) in pairs {
                let ((ct, cb), (st, sb)) = (key_of(b, &run, c), key_of(b, &run, s));
                if let (Some(ct), Some(st)) = (ct, st) {
                    if prop == "A06" && ct.id == st.id && honest(b, c, s) {
                        rep.count("same_ssid");
                        if cb.is_none() || cb != sb {
                            bad.push(format!("{c} and {s} hold the same SSID but not the same key"));
                        }
                    }
                    if ct.id != st.id && of_interest(c, s) {
                        rep.count("keys_compared");
                        if cb.is_some() && cb == sb {
                            bad.push(format!("{c} and {s} disagree and yet have the same key {}", hex(&cb.unwrap())));
                        }
                    }
                }
            }
            for o in &run.obs {
                let e = &b.evs[o.ev];
                let peer = e.src.chars().next() != e.s.chars().next();
                if matches!(&e.op[..], "sauth" | "cauth") && e.status == "MutualAuthFail" && e.how == "none" && peer && of_interest(&e.src, &e.s) {
                    rep.count("authentications_refused");
                    if o.status == "Ok" {
                        bad.push(format!("{} accepts the authenticator of {}, with which it disagrees", show(e), e.src));
                    }
                }
            }
        }
        "A03" => {
            for o in &run.obs {
                let e = &b.evs[o.ev];
                if !matches!(&e.op[..], "sauth" | "cauth") {
                    continue;
                }
                let partner = e.s.chars().last() == e.src.chars().last() && e.s != e.src;
                if e.status == "Ok" {
                    let (c, s) = if e.op == "cauth" { (&e.s[..], &e.src[..]) } else { (&e.src[..], &e.s[..]) };
                    if honest(b, c, s) {
                        rep.count("right_authenticators");
                        if o.status != "Ok" {
                            bad.push(format!("{} answers the right authenticator with {}", show(e), o.status));
                        }
                    }
                } else {
                    rep.count("wrong_authenticators");
                    let altered = e.how != "none" || !partner;
                    if o.status != "MutualAuthFail" && (altered || o.status != "Ok") {
                        bad.push(format!("{} answers a wrong authenticator (from {}, changed: {}) with {}", show(e), e.src, e.how, o.status));
                    }
                }
            }
        }
        "A04" => {
            for o in &run.obs {
                let e = &b.evs[o.ev];
                if !matches!(&e.op[..], "sinfo" | "ccpace" | "crecv" | "srecv") {
                    continue;
                }
                rep.count(if e.status == "IllegalPoint" { "neutral_elements" } else { "other_elements" });
                if (e.status == "IllegalPoint") != (o.status == "IllegalPoint") {
                    bad.push(format!("{} gives {} instead of {}", show(e), o.status, e.status));
                }
            }
        }
        "A05" => {
            for s in ["s1", "s2"] {
                let Some((_, e)) = ev_of(b, "sinfo", s) else { continue };
                if e.known || e.status != "Ok" {
                    continue;
                }
                rep.count("unknown_users");
                // the run goes on
                for op in ["sinfo", "spub", "srecv"] {
                    if let (Some((_, e)), Some(o)) = (ev_of(b, op, s), obs_of(b, &run, op, s)) {
                        if o.status != e.status && !(o.status == "IllegalPoint") {
                            bad.push(format!("{} for an unknown user gives {} instead of {}", show(e), o.status, e.status));
                        }
                    }
                }
                if let Some(o) = obs_of(b, &run, "sauth", s) {
                    if o.status == "Ok" {
                        bad.push(format!("{s} authenticates a user it does not know"));
                    }
                }
                for c in ["c1", "c2"] {
                    if run.keys.get(c).is_some() && run.keys.get(c) == run.keys.get(s) {
                        bad.push(format!("{c} shares the key of {s}, which does not know the user"));
                    }
                }
                if let Some((n, _)) = ev_of(b, "spub", s) {
                    if run.lost.iter().any(|l| *l == (n, "prs".into())) && formulas_hold::<D, R, K>(case, rep) {
                        bad.push(format!("the password-related string of {s} for an unknown user is no fresh randomness"));
                    }
                    let w = |k: &str| run.wins.iter().find(|w| w.0 == s && w.1 == k);
                    if let (Some(p), Some(x)) = (w("prs"), w("x")) {
                        if p.2 < x.2 + x.3 && x.2 < p.2 + p.3 {
                            bad.push(format!("the password-related string of {s} for an unknown user is that of its secret"));
                        }
                    }
                }
            }
        }
        "A08" => {
            let mut seen: Vec<(String, Vec<u8>)> = vec![];
            for (n, m) in &run.regs {
                let e = &b.evs[*n];
                rep.count("registrations");
                let (u, p) = (&strs[&e.user], &strs[&e.pw]);
                let (user, par, w) = match m {
                    M::Reg { user, par, w, .. } | M::SReg { user, par, w, .. } => (user, par, w),
                    _ => continue,
                };
                if user != u {
                    bad.push(format!("registration of {} names {}", hexs(u), hexs(user)));
                }
                if *par != case.params[&e.par] {
                    bad.push(format!("registration with parameters {:?} carries {par:?}", case.params[&e.par]));
                }
                let (salt, id) = match m {
                    M::Reg { salt, .. } => (salt.clone(), salt.clone().into_bytes()),
                    M::SReg { q, .. } => {
                        let up = [&u[..], &p[..]].concat();
                        let z = Pt::from_uniform_bytes(&hn::<D>(1, &[&up]).try_into().unwrap());
                        (b64(&(z * q).compress().to_bytes()), q.to_bytes().to_vec())
                    }
                    _ => continue,
                };
                let want = to_scalar(&compute(case.hasher, &[&u[..], b":", &p[..]].concat(), &salt, &case.params[&e.par])).map(|w| BASE * w);
                if want != Some(*w) {
                    bad.push(format!("the verifier registered by {} is not B^w", e.s));
                }
                if let Some(x) = seen.iter().find(|x| x.1 == id) {
                    bad.push(format!("registrations {} and {} have the same salt", x.0, e.s));
                }
                seen.push((e.s.clone(), id));
            }
            for o in &run.obs {
                let e = &b.evs[o.ev];
                if e.op == "reg" && o.status != "Ok" {
                    bad.push(format!("registration {} ends with {}", e.s, o.status));
                }
            }
            if b.evs.iter().filter(|e| e.op == "reg").count() > 1 {
                for (c, s) in pairs {
                    let ((ct, cb), (st, sb)) = (key_of(b, &run, c), key_of(b, &run, s));
                    if let (Some(ct), Some(st)) = (ct, st) {
                        let honest = honest(b, c, s);
                        if honest || (clean(b, c, s) && ct.id != st.id) {
                            rep.count("logins_after_reregistration");
                            if (cb.is_some() && cb == sb) != honest {
                                bad.push(format!("after registering anew the keys of {c} and {s} are {}", if honest { "different" } else { "the same" }));
                            }
                        }
                    }
                }
            }
        }
        "A09" => {
            let mut other: Option<Run<D>> = None;
            let obs: Vec<(usize, Vec<(&T, Vec<u8>)>)> = run.obs.iter().map(|o| (o.ev, o.outs.clone())).collect();
            for (n, outs) in obs {
                for (t, v) in outs {
                    match run.env.bytes(t) {
                        Some(w) => {
                            rep.count("values_compared");
                            if w != v {
                                bad.push(format!("{}: {} is {} instead of {}", show(&b.evs[n]), t.show().chars().take(200).collect::<String>(), hexs(&v), hexs(&w)));
                            }
                        }
                        None => rep.count("values_unknown"),
                    }
                }
            }
            // a public key that no exponent from the generator explains, and that does depend on the generator
            let lost: Vec<(usize, String)> = run.lost.iter().filter(|l| l.1 != "prs").cloned().collect();
            for (n, what) in lost {
                if other.is_none() {
                    let c2 = Case { ses: 1, ..case.clone() };
                    // the case outlives the run only here
                    let c2: &'static Case = Box::leak(Box::new(c2));
                    let strs2: &'static _ = Box::leak(Box::new(strs.clone()));
                    let b2: &Beh = b;
                    other = replay::<D, R, K>(b2, c2, strs2, false, rep);
                }
                let v = |r: &Run<D>| r.obs.iter().find(|o| o.ev == n).and_then(|o| b.evs[n].out.first().and_then(|t| o.outs.iter().find(|x| x.0.id == t.id)).map(|x| x.1.clone()));
                let o = other.as_ref().and_then(v);
                if o.is_some() && o != v(&run) {
                    bad.push(format!("{}: no {what} from the generator gives this value by the formula", show(&b.evs[n])));
                }
            }
        }
        "A10" => fresh::<D, R, K>(b, case, &mut run, &pairs, K, rep, &mut bad),
        "A11" => {
            let direct = Case { wire: Wire::Direct, ..case.clone() };
            let ref_run = replay::<D, R, K>(b, &direct, strs, false, rep)?;
            bad.append(&mut run.wire_bad);
            for o in &ref_run.obs {
                let e = &b.evs[o.ev];
                match run.obs.iter().find(|x| x.ev == o.ev) {
                    Some(x) if x.status == o.status && x.outs.len() == o.outs.len() && x.outs.iter().zip(&o.outs).all(|(x, y)| x.1 == y.1) => {}
                    Some(x) => bad.push(format!("{}: {} when messages are serialised, {} otherwise", show(e), x.status, o.status)),
                    None => bad.push(format!("{}: not reached when messages are serialised", show(e))),
                }
            }
            if run.keys != ref_run.keys {
                bad.push("serialising the messages changes the session keys".into());
            }
        }
        p => panic!("property {p}"),
    }
    Some(bad)
}

/// An honest run of a registered user follows the formulas (where it does not, what an unknown
/// user's PRS is cannot be told).
fn formulas_hold<D: Hash64, R: Source, const K: usize>(case: &Case, _rep: &mut Report) -> bool {
    let u = b"control".to_vec();
    let tapes: Vec<Tape> = (0..3).map(|i| Tape::new(&[case.seed, case.prof.seed, 900 + i])).collect();
    let hasher = TH(Out::Bytes(32));
    let go = || -> Option<bool> {
        let mut db = Db::default();
        let w = Scalar::from(12345u64);
        db.plain.insert(u.clone(), (BASE * w, SaltString::from_b64("c2FsdHNhbHQ").ok()?, ParamsString::default()));
        let mut server: AuCPaceServer<D, R, K> = AuCPaceServer::new(R::of(&tapes[0]));
        let _ = hasher;
        let aug = server.begin_prestablished_ssid([7u8; 16]).ok()?;
        let at = tapes[1].len();
        let (st, m) = aug.generate_client_info(&u, &db, R::of(&tapes[1]));
        let M::Info { x, .. } = sm(&m) else { return Some(false) };
        let mid = tapes[1].len();
        let (_, m) = st.generate_public_key(b"ci");
        let M::Pub(p) = sm(&m) else { return Some(false) };
        let mut seg = tapes[1].since(at);
        seg.bytes.truncate(mid - at);
        let (x, _, _) = seg.scalars().into_iter().find(|(v, _, _)| BASE * v == x)?;
        let prs = (BASE * (w * x)).compress().to_bytes();
        let ssid = hn::<D>(0, &[&[7u8; 16]]);
        let g = Pt::from_uniform_bytes(&hn::<D>(1, &[&ssid, &prs, b"ci"]).try_into().ok()?);
        Some(tapes[1].since(mid).scalars().into_iter().take(4).any(|(y, _, _)| g * y == p))
    };
    let t = tapes[1].clone();
    R::run(&t, || guard(go)).flatten() == Some(true)
}

/// every secret and nonce is fresh from the generator
fn fresh<D: Hash64, R: Source, const K: usize>(b: &Beh, case: &Case, run: &mut Run<'_, '_, D>, pairs: &[(&str, &str)], k: usize, rep: &mut Report, bad: &mut Vec<String>) {
    let tag = format!("behaviour {:x} {:x}", case.seed, case.prof.seed);
    let mut value = |v: &[u8], what: String, bad: &mut Vec<String>| {
        if v.len() < 8 {
            return;
        }
        let w = format!("{tag} {what}");
        if let Some(old) = rep.values.insert(v.to_vec(), w.clone()) {
            bad.push(format!("{} occurs twice: {old}; {w}", hexs(v)));
        }
    };
    // nonces, salts, exponents and long-term keys are seen directly
    for o in &run.obs {
        let e = &b.evs[o.ev];
        if o.status != "Ok" {
            continue;
        }
        match &e.op[..] {
            "cstart" | "sstart" if !b.cfg.pre => {
                let v = &o.outs[0].1;
                if !o.seg.windows(k).iter().any(|w| w.0 == *v) {
                    bad.push(format!("the nonce of {} is not what the generator gave", e.s));
                }
                value(v, format!("nonce of {}", e.s), bad);
            }
            "key" => {
                let Some(t) = find_rnd(&e.out, &e.s, "x") else { continue };
                let x = run.env.scalars[&t.id];
                if !o.seg.scalars().iter().any(|(v, _, _)| *v == x) {
                    bad.push("a long-term key is not what the generator gave".into());
                }
                value(x.as_bytes(), format!("long-term key {}", e.s), bad);
            }
            "reg" => {
                let Some((_, m)) = run.regs.iter().find(|r| r.0 == o.ev) else { continue };
                match m {
                    M::Reg { salt, .. } => {
                        let raw = unb64(salt).unwrap_or_default();
                        if raw.len() < 16 || !o.seg.windows(raw.len()).iter().any(|w| w.0 == raw) {
                            bad.push(format!("the salt {salt} is not what the generator gave"));
                        }
                        value(&raw, format!("salt {}", e.s), bad);
                    }
                    M::SReg { q, .. } => {
                        if !o.seg.scalars().iter().any(|(v, _, _)| v == q) {
                            bad.push("a salt exponent is not what the generator gave".into());
                        }
                        value(q.as_bytes(), format!("salt exponent {}", e.s), bad);
                    }
                    _ => {}
                }
            }
            "cpub" | "spub" => value(&o.outs[0].1, format!("public key of {}", e.s), bad),
            "caug" if b.cfg.strong => value(&o.outs[0].1, format!("blinded point of {}", e.s), bad),
            "sinfo" if !b.cfg.partial => {
                if let Some(x) = o.outs.iter().find(|x| x.0.id == e.out[0].id) {
                    value(&x.1, format!("public value of {}", e.s), bad)
                }
            }
            _ => {}
        }
    }
    // ephemeral keys and blinding values are seen through the group
    for (s, what, _, w) in &run.wins {
        rep.count("secrets_traced");
        if *w < 32 {
            bad.push(format!("the secret {what} of {s} has only {w} bytes of randomness"));
        }
    }
    for s in PARTIES {
        let v: Vec<_> = run.wins.iter().filter(|w| w.0 == s).collect();
        for (i, x) in v.iter().enumerate() {
            for y in &v[..i] {
                if x.2 < y.2 + y.3 && y.2 < x.2 + x.3 {
                    bad.push(format!("{} and {} of {s} are made from the same randomness", x.1, y.1));
                }
            }
        }
    }
    // where the formula does not explain a key (it may be the formula that is wrong): two keys over
    // the same base, each with its exponent from its generator
    let lost: Vec<(usize, String)> = run.lost.clone();
    for (n, what) in lost {
        let e = &b.evs[n];
        let twin: Option<usize> = match &what[..] {
            "y" => pairs.iter().find(|(c, s)| honest(b, c, s) && (*c == e.s || *s == e.s)).and_then(|(c, s)| {
                let (other, op) = if *c == e.s { (*s, "spub") } else { (*c, "cpub") };
                ev_of(b, op, other).map(|x| x.0)
            }),
            "x" | "r" => b.evs.iter().position(|x| x.op == e.op && x.s != e.s && (what == "x" || (x.user == e.user && x.pw == e.pw))),
            _ => None,
        };
        let Some(twin) = twin else { continue };
        let get = |n: usize| run.obs.iter().find(|o| o.ev == n && o.status == "Ok").and_then(|o| {
            let t = b.evs[n].out.first()?;
            o.outs.iter().find(|x| x.0.id == t.id).map(|x| (x.1.clone(), o.seg.clone()))
        });
        let (Some((p, sp)), Some((q, sq))) = (get(n), get(twin)) else { continue };
        let pt = |v: &[u8]| curve25519_dalek::ristretto::CompressedRistretto::from_slice(v).ok().and_then(|c| c.decompress());
        let (Some(p), Some(q)) = (pt(&p), pt(&q)) else { continue };
        let set: std::collections::HashSet<[u8; 32]> =
            sq.scalars().into_iter().take(120).map(|(v, _, _)| (q * v.invert()).compress().to_bytes()).collect();
        if !sp.scalars().into_iter().take(120).any(|(v, _, _)| set.contains(&(p * v.invert()).compress().to_bytes())) {
            bad.push(format!("the secret {what} of {} is not what the generator gave", e.s));
        }
    }
    let _ = std::marker::PhantomData::<R>;
}

// ---------------------------------------------------------------- driver

/// a PHC parameter string of n pairs and about the given length
pub fn some_params(r: &mut Prng, n: usize, len: usize) -> String {
    let small = |r: &mut Prng| *r.pick(b"abcdefghijklmnopqrstuvwxyz0123456789-") as char;
    let value = |r: &mut Prng| *r.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/.-") as char;
    let n = n.clamp(1, 32);
    let mut pairs: Vec<(String, String)> = (0..n).map(|_| (small(r).to_string(), value(r).to_string())).collect();
    let mut left = len.min(127).saturating_sub(4 * n - 1);
    let mut tries = 0;
    while left > 0 && tries < 2000 {
        tries += 1;
        let k = r.below(n);
        if r.chance(1, 5) {
            if pairs[k].0.len() < 32 {
                pairs[k].0.push(small(r));
                left -= 1;
            }
        } else if pairs[k].1.len() < 64 {
            pairs[k].1.push(value(r));
            left -= 1;
        }
    }
    pairs.iter().map(|(a, b)| format!("{a}={b}")).collect::<Vec<_>>().join(",")
}

pub fn param_strings(r: &mut Prng) -> HashMap<String, String> {
    let (mut a, mut b);
    if r.chance(1, 2) {
        a = r.pick(&["x=1", "ln=15,r=8,p=1", "m=19456,t=2,p=1", "i=600000,l=32", "n=a", "data=AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"]).to_string();
        b = r.pick(&["x=2", "ln=16,r=8,p=1", "m=19456,t=3,p=1", "i=600001,l=32", "n=a,m=b", "data=AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAB"]).to_string();
    } else {
        // any, and one that differs from it in one place only
        let (n, len) = (1 + r.below(12), r.below(128));
        a = some_params(r, n, len);
        b = a.clone();
        let mut c: Vec<char> = b.chars().collect();
        let places: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_digit()).collect();
        if places.is_empty() || r.chance(1, 3) {
            b = some_params(r, n, len);
        } else {
            let k = *r.pick(&places);
            c[k] = if c[k] == '9' { '0' } else { (c[k] as u8 + 1) as char };
            b = c.into_iter().collect();
        }
    }
    if a == b {
        (a, b) = ("x=1".to_string(), "x=2".to_string());
    }
    [("A", a), ("B", b), ("default", String::new())].into_iter().map(|(k, v)| (k.to_string(), v)).collect()
}

fn run_one(prop: &str, b: &Beh, case: &Case, kind: usize, rep: &mut Report) -> Option<Vec<String>> {
    // how the bytes of strings are limited, so that one string cannot make the run slow
    let strs = concretise(&b.strs, &case.prof, 66_000)?;
    match kind {
        0 => judge::<Sha512, Tape, 16>(prop, b, case, &strs, rep),
        1 => judge::<Alt512, OsRng, 32>(prop, b, case, &strs, rep),
        2 => judge::<Sha512, OsRng, 16>(prop, b, case, &strs, rep),
        3 => judge::<Alt512, Tape, 32>(prop, b, case, &strs, rep),
        4 => judge::<Sha512, Tape, 64>(prop, b, case, &strs, rep),
        5 => judge::<Alt512, OsRng, 200>(prop, b, case, &strs, rep),
        6 => judge::<Alt512, Tape, 129>(prop, b, case, &strs, rep),
        _ => judge::<Sha512, Tape, 1>(prop, b, case, &strs, rep),
    }
}

fn describe(b: &Beh, case: &Case, kind: usize) -> J {
    let strs: Vec<String> = concretise(&b.strs, &case.prof, 66_000)
        .map(|m| m.iter().map(|(k, v)| format!("{} = {}", k.join("."), hexs(v))).collect())
        .unwrap_or_default();
    obj! {
        "behaviour" => b.text.clone(),
        "kind" => ["Sha512, given generator, 16-byte nonces", "other hash, OsRng, 32-byte nonces", "Sha512, OsRng, 16-byte nonces",
                   "other hash, given generator, 32-byte nonces", "Sha512, given generator, 64-byte nonces",
                   "other hash, OsRng, 200-byte nonces", "other hash, given generator, 129-byte nonces",
                   "Sha512, given generator, 1-byte nonces"][kind.min(7)],
        "hasher" => format!("{:?}", case.hasher),
        "wire" => format!("{:?}", case.wire),
        "seed" => case.seed as i64,
        "profile" => format!("{:?}", case.prof),
        "strings" => strs
    }
}

pub fn conformance(a: &Args, rep: &mut Report) {
    let prop = a.prop.as_str();
    let seed = a.seed();
    if let Some(f) = a.opt("beh") {
        let mut terms = Terms::default();
        let behs = read_behaviours(f, &mut terms);
        rep.add("behaviours", behs.len() as u64);
        let profiles = a.num("profiles", 6);
        let strs: Vec<&Vec<Vec<String>>> = behs.iter().map(|b| &b.strs).collect();
        let swept = sweeps(seed, &strs, a.num("sweep", 0), |i| !matches!(prop, "A01" | "A03") || honest(&behs[i], "c1", "s1"));
        let plain = behs.len() * profiles;
        let r = parallel(plain + swept.len(), |i, rep| {
            if rep.total_findings > 30 {
                return;
            }
            let (bi, pi) = if i < plain { (i % behs.len(), i / behs.len()) } else { (swept[i - plain].0, i) };
            let b = &behs[bi];
            let mut p = profile(seed.wrapping_add(bi as u64 * 104_729), pi + bi);
            if i >= plain {
                p.sweep = swept[i - plain].1.clone();
                rep.count("swept");
            }
            let mut r = Prng::new(&[p.seed, bi as u64, 19]);
            let kind = if prop == "A10" { r.below(7) } else { r.below(8) };
            let wire = if prop == "A11" { *r.pick(&[Wire::Bincode, Wire::Postcard]) } else { Wire::Direct };
            let case = Case {
                prof: p,
                hasher: *r.pick(&[Out::Bytes(32), Out::Bytes(32), Out::Bytes(64), Out::Bytes(64), Out::Scrypt]),
                wire,
                seed: r.u64(),
                ses: 0,
                edit: None,
                params: param_strings(&mut r),
                foreign: !matches!(prop, "A08" | "A10") && r.chance(1, 3),
            };
            match run_one(prop, b, &case, kind, rep) {
                None => rep.count("skipped"),
                Some(bad) => {
                    rep.count("replayed");
                    if !bad.is_empty() {
                        rep.finding(obj! {"what" => bad, "case" => describe(b, &case, kind)});
                    } else if bi % 50 == 3 {
                        rep.sample(describe(b, &case, kind));
                    }
                }
            }
        });
        rep.merge(r);
        if prop == "A03" {
            edits(a, &behs, rep);
        }
    }
    if let Some(f) = a.opt("decoy") {
        decoys(a, f, rep);
    }
    if prop == "A05" {
        names(a, rep);
    }
    if prop == "A10" {
        secrets(a, rep);
    }
    if let Some(f) = a.opt("life") {
        crate::life::conformance(a, f, rep);
    }
    if prop == "A09" {
        defaults(rep);
    }
    if let Some(f) = a.opt("table") {
        table(a, f, rep);
    }
    if let Some(f) = a.opt("wire") {
        crate::wire::conformance(a, f, rep);
    }
}

/// the instantiations the crate gives names to are those it documents
fn defaults(rep: &mut Report) {
    use std::any::{type_name, TypeId};
    let c = TypeId::of::<::aucpace::Client>() == TypeId::of::<AuCPaceClient<Sha512, scrypt::Scrypt, OsRng, 16>>();
    let s = TypeId::of::<::aucpace::Server>() == TypeId::of::<AuCPaceServer<Sha512, OsRng, 16>>();
    rep.add("default instantiations", 2);
    for (ok, what, is) in [(c, "Client", type_name::<::aucpace::Client>()), (s, "Server", type_name::<::aucpace::Server>())] {
        if !ok {
            rep.finding(obj! {"what" => format!("{what} is {is}, not the documented instantiation")});
        }
    }
}

// ---------------------------------------------------------------- unknown users (AuCPaceDecoy)

struct Query {
    op: String,
    s: String,
    user: Vec<String>,
    strong: bool,
    partial: bool,
    known: bool,
    out: Vec<T>,
}

/// an augmentation step of a server; the parts of the answer
#[allow(clippy::too_many_arguments)]
fn ask<D: Hash64, R: Source, const K: usize>(
    server: &mut AuCPaceServer<D, R, K>,
    stape: &Tape,
    tape: &Tape,
    user: &[u8],
    strong: Option<Pt>,
    partial: bool,
    nonce: bool,
    db: &Db,
) -> Option<Result<(AuCPaceServerCPaceSubstep<D, R, K>, M), String>> {
    let aug = R::run(stape, || {
        guard(|| {
            if nonce {
                server.begin().0.agree_ssid([5; K])
            } else {
                server.begin_prestablished_ssid([6u8; 20]).unwrap()
            }
        })
    })?;
    R::run(tape, || {
        guard(|| {
            let rng = R::of(tape);
            match (strong, partial) {
                (None, false) => {
                    let (s, m) = aug.generate_client_info(user, db, rng);
                    Ok((s, sm(&m)))
                }
                (None, true) => {
                    let (s, m) = aug.generate_client_info_partial_aug(user, db, rng);
                    Ok((s, sm(&m)))
                }
                (Some(p), false) => aug.generate_client_info_strong(user, p, db, rng).map(|(s, m)| (s, sm(&m))).map_err(|e| estr(&e)),
                (Some(p), true) => aug.generate_client_info_partial_strong(user, p, db, rng).map(|(s, m)| (s, sm(&m))).map_err(|e| estr(&e)),
            }
        })
    })
}

/// what else happens to a server; other checks look at how it ends
fn interlude<D: Hash64, R: Source, const K: usize>(
    server: &mut AuCPaceServer<D, R, K>,
    stape: &Tape,
    what: &str,
    user: &[u8],
    r: &mut Prng,
    db: &Db,
) {
    let tape = Tape::new(&[r.u64()]);
    let short = r.bytes(15);
    let how = r.below(4);
    let run = |strong: Option<Pt>, peer: Pt, auth: Option<[u8; 64]>, server: &mut AuCPaceServer<D, R, K>| {
        let Some(Ok((st, _))) = ask(server, stape, &tape, user, strong, how % 2 == 0, how < 2, db) else { return };
        R::run(&tape, || {
            guard(|| {
                let (st, _) = st.generate_public_key(b"ci");
                match auth {
                    None => drop(st.implicit_auth(peer)),
                    Some(a) => drop(st.receive_client_pubkey(peer).map(|s| s.receive_client_authenticator(a).is_ok())),
                }
            })
        });
    };
    match what {
        "short ssid" => drop(R::run(stape, || guard(|| server.begin_prestablished_ssid(&short[..1 + how * 4]).is_ok()))),
        "no ssid" => drop(R::run(stape, || guard(|| server.begin_prestablished_ssid([]).is_ok()))),
        "begin" => drop(R::run(stape, || guard(|| drop(server.begin())))),
        "begin pre" => drop(R::run(stape, || guard(|| server.begin_prestablished_ssid([9; 16]).is_ok()))),
        "keypair" => drop(R::run(stape, || guard(|| server.generate_long_term_keypair().1 == BASE))),
        "fail" => run(None, BASE, Some([7; 64]), server),
        "illegal point" => run(Some(Pt::identity()), BASE, Some([7; 64]), server),
        "illegal key" => run(None, Pt::identity(), Some([7; 64]), server),
        "implicit" => run(None, BASE, None, server),
        // many at once
        _ => {
            for _ in 0..r.pick(&[1, 300, 1100, 5000]).to_owned() {
                R::run(stape, || guard(|| drop(server.begin())));
            }
        }
    }
}

pub const INTERLUDES: [&str; 9] =
    ["short ssid", "no ssid", "begin", "begin pre", "keypair", "fail", "illegal point", "illegal key", "implicit"];

fn decoy_run<D: Hash64, R: Source, const K: usize>(q: &[Query], seed: u64, strs: &HashMap<Vec<String>, Vec<u8>>, rep: &mut Report) -> Vec<String> {
    let mut bad = vec![];
    let mut r = Prng::new(&[seed, 31]);
    let stapes: HashMap<&str, Tape> = [("S", Tape::new(&[seed, 1])), ("T", Tape::new(&[seed, 2]))].into();
    let mut servers: HashMap<&str, AuCPaceServer<D, R, K>> = HashMap::new();
    for (n, t) in &stapes {
        match R::run(t, || guard(|| AuCPaceServer::new(R::of(t)))) {
            Some(x) => servers.insert(n, x),
            None => return vec!["creating a server panics".into()],
        };
    }
    let mut db = Db::default();
    let mut of: HashMap<u32, Vec<u8>> = HashMap::new();
    let mut by: HashMap<Vec<u8>, u32> = HashMap::new();
    let mut group: Option<String> = None;
    let mut unknown_par: Option<String> = None;
    for (i, q) in q.iter().enumerate() {
        let user = &strs[&q.user];
        if q.op != "register" && q.op != "query" {
            rep.count("interludes");
            interlude(servers.get_mut(&q.s[..]).unwrap(), &stapes[&q.s[..]], &q.op, user, &mut r, &db);
            continue;
        }
        if q.op == "register" {
            let w = Scalar::from_bytes_mod_order_wide(&r.bytes(64).try_into().unwrap());
            let x = Scalar::from_bytes_mod_order_wide(&r.bytes(64).try_into().unwrap());
            let e = Scalar::from_bytes_mod_order_wide(&r.bytes(64).try_into().unwrap());
            db.plain.insert(user.clone(), (BASE * w, SaltString::from_b64(&b64(&r.bytes(16))).unwrap(), "x=1".parse().unwrap()));
            db.strong.insert(user.clone(), (BASE * w, e, "x=1".parse().unwrap()));
            db.keys.insert(user.clone(), (x, BASE * x));
            continue;
        }
        let tape = Tape::new(&[seed, 50 + i as u64]);
        // the base of the name, blinded
        let zb = Pt::from_uniform_bytes(&hn::<D>(77, &[user]).try_into().unwrap());
        let blind = Scalar::from_bytes_mod_order_wide(&r.bytes(64).try_into().unwrap());
        let u = q.strong.then_some(zb * blind);
        let who = format!("query {} (server {}, {} user, {}{})", i + 1, q.s, if q.known { "known" } else { "unknown" },
            if q.strong { "strong" } else { "plain" }, if q.partial { ", long-term key" } else { "" });
        let Some(res) = ask(servers.get_mut(&q.s[..]).unwrap(), &stapes[&q.s[..]], &tape, user, u, q.partial, r.chance(1, 2), &db) else {
            bad.push(format!("{who} panics"));
            continue;
        };
        let (st, m) = match res {
            Ok(x) => x,
            Err(e) => {
                bad.push(format!("{who} ends with {e}"));
                continue;
            }
        };
        let (g, x, info, par) = match m {
            M::Info { group, x, salt, par } if !q.strong => (group, x, salt.into_bytes(), par),
            M::SInfo { group, x, bs, par } if q.strong => (group, x, (bs * blind.invert()).compress().to_bytes().to_vec(), par),
            m => {
                bad.push(format!("{who} is answered with another kind of message, {m:?}"));
                continue;
            }
        };
        rep.count("decoy_queries");
        if *group.get_or_insert(g.clone()) != g {
            bad.push(format!("{who} names the group {g}"));
        }
        if q.known {
            continue;
        }
        if *unknown_par.get_or_insert(par.clone()) != par {
            bad.push(format!("{who} gives the parameters {par:?}, different from other unknown users"));
        }
        if x == Pt::identity() || (q.strong && info == [0; 32]) {
            bad.push(format!("{who} is answered with a neutral element"));
        }
        for (t, v) in [(&q.out[0], x.compress().to_bytes().to_vec()), (&q.out[1], info)] {
            if let Some(old) = of.insert(t.id, v.clone()) {
                if old != v {
                    bad.push(format!("{who} is answered with {}, unlike before ({})", show_bytes(&v), show_bytes(&old)));
                }
            }
            if let Some(old) = by.insert(v.clone(), t.id) {
                if old != t.id {
                    bad.push(format!("{who} is answered with {}, which was the answer to something else", show_bytes(&v)));
                }
            }
        }
        // the run goes on, to no avail
        let peer = Pt::from_uniform_bytes(&r.bytes(64).try_into().unwrap());
        let auth: [u8; 64] = r.bytes(64).try_into().unwrap();
        let end = R::run(&tape, || {
            guard(|| {
                let (st, m) = st.generate_public_key(b"ci");
                let p = sm(&m);
                match st.receive_client_pubkey(peer) {
                    Ok(st) => (p, st.receive_client_authenticator(auth).err().map(|e| estr(&e)).unwrap_or("Ok".into())),
                    Err(e) => (p, estr(&e)),
                }
            })
        });
        match end {
            Some((M::Pub(p), e)) if e == "MutualAuthFail" => {
                if by.insert(p.compress().to_bytes().to_vec(), u32::MAX - i as u32).is_some() {
                    bad.push(format!("{who}: the server's public key was seen before"));
                }
            }
            x => bad.push(format!("{who}: the run ends with {x:?} instead of a failed authentication")),
        }
    }
    bad
}

fn decoys(a: &Args, file: &str, rep: &mut Report) {
    let mut terms = Terms::default();
    let seqs: Vec<(Vec<Query>, J)> = tlc_lines(file)
        .iter()
        .map(|j| {
            let q = j.arr().iter().map(|e| Query {
                op: e.get("op").s().to_string(),
                s: e.get("s").s().to_string(),
                user: e.get("user").strs(),
                strong: e.get("strong").b(),
                partial: e.get("partial").b(),
                known: e.get("known").b(),
                out: e.get("out").arr().iter().map(|t| terms.read(t)).collect(),
            });
            (q.collect(), slim(&obj! {"ev" => j.clone()}))
        })
        .collect();
    rep.add("decoy_sequences", seqs.len() as u64);
    let profiles = a.num("decoys", 1);
    let r = parallel(seqs.len() * profiles, |i, rep| {
        if rep.total_findings > 30 {
            return;
        }
        let (si, pi) = (i % seqs.len(), i / seqs.len());
        let (q, text) = &seqs[si];
        let p = profile(a.seed().wrapping_add(7 + si as u64 * 15_485_863), pi + si);
        let mut names: Vec<Vec<String>> = vec![];
        for x in q {
            if !names.contains(&x.user) {
                names.push(x.user.clone());
            }
        }
        let Some(strs) = concretise(&names, &p, 66_000) else {
            rep.count("skipped");
            return;
        };
        let seed = Prng::new(&[p.seed, si as u64, 3]).u64();
        let bad = match si % 3 {
            0 => decoy_run::<Sha512, Tape, 16>(q, seed, &strs, rep),
            1 => decoy_run::<Alt512, OsRng, 32>(q, seed, &strs, rep),
            _ => decoy_run::<Alt512, Tape, 32>(q, seed, &strs, rep),
        };
        rep.count("replayed");
        if !bad.is_empty() {
            let strs: Vec<String> = strs.iter().map(|(k, v)| format!("{} = {}", k.join("."), hexs(v))).collect();
            rep.finding(obj! {"what" => bad, "sequence" => text.clone(), "strings" => strs});
        }
    });
    rep.merge(r);
}

/// many unknown names, whose decoys must all differ, and not change
fn names(a: &Args, rep: &mut Report) {
    let mut r = Prng::new(&[a.seed(), 41]);
    let tapes = [Tape::new(&[a.seed(), 42]), Tape::new(&[a.seed(), 43])];
    let db = Db::default();
    let mut server: AuCPaceServer<Sha512, Tape, 16> = AuCPaceServer::new(tapes[0].clone());
    let mut list: Vec<Vec<u8>> = vec![vec![]];
    // every length, and long names that differ in one place
    let base = r.bytes(3000);
    for n in 1..1200 {
        list.push(base[..n].to_vec());
    }
    for n in 0..3000 {
        let mut v = base.clone();
        v[n] ^= 1 << (n % 8);
        list.push(v);
    }
    for c in 0..=255u8 {
        list.push([b"user".as_slice(), &[c]].concat());
        list.push(vec![c; 2]);
    }
    list.sort();
    list.dedup();
    let mut seen: HashMap<Vec<u8>, (usize, &str)> = HashMap::new();
    for round in 0..2 {
        if round == 1 {
            // more sessions than a small counter holds
            for i in 0..66_000 {
                if i % 2 == 0 {
                    let _ = guard(|| drop(server.begin()));
                } else {
                    let _ = guard(|| server.begin_prestablished_ssid([3; 16]).is_ok());
                }
            }
            for i in 0..1500 {
                interlude(&mut server, &tapes[0], INTERLUDES[i % INTERLUDES.len()], b"user", &mut r, &db);
            }
        }
        for (i, n) in list.iter().enumerate() {
            // the second time only some
            if round == 1 && i % 9 != 0 {
                continue;
            }
            rep.count("names");
            if i % 9 == 0 {
                let what = *r.pick(&INTERLUDES);
                interlude(&mut server, &tapes[0], what, n, &mut r, &db);
            }
            let mut values = vec![];
            match ask(&mut server, &tapes[0], &tapes[1], n, None, true, false, &db) {
                Some(Ok((_, M::Info { x, salt, .. }))) => {
                    values.push((salt.into_bytes(), "salt"));
                    values.push((x.compress().to_bytes().to_vec(), "public value"));
                }
                x => rep.finding(obj! {"what" => vec![format!("the name {} gives {:?}", hexs(n), x.map(|x| x.map(|x| x.1)))]}),
            }
            match ask(&mut server, &tapes[0], &tapes[1], n, Some(BASE), true, false, &db) {
                Some(Ok((_, M::SInfo { bs, .. }))) => values.push((bs.compress().to_bytes().to_vec(), "salt exponent")),
                x => rep.finding(obj! {"what" => vec![format!("the name {} gives {:?}", hexs(n), x.map(|x| x.map(|x| x.1)))]}),
            }
            for (v, what) in values {
                match seen.insert(v.clone(), (i, what)) {
                    None if round == 1 => {
                        rep.finding(obj! {"what" => vec![format!("the decoy {what} of the unknown name {} has changed", hexs(n))]});
                    }
                    Some(o) if o != (i, what) => {
                        rep.finding(obj! {"what" => vec![format!("the {} of the unknown name {} is the {what} of {}", o.1, hexs(&list[o.0]), hexs(n))]});
                    }
                    _ => {}
                }
            }
            if rep.total_findings > 20 {
                return;
            }
        }
    }
}

/// the decoys depend on everything that the server drew for its secret, and on nothing else
fn secrets(a: &Args, rep: &mut Report) {
    let db = Db::default();
    let go = |forced: &[u8], seed: u64| -> Option<(Vec<Vec<u8>>, Vec<u8>)> {
        let st = Tape::forced(&[seed], forced);
        let t = Tape::new(&[a.seed(), 4321]);
        let mut server: AuCPaceServer<Sha512, Tape, 16> = guard(|| AuCPaceServer::new(st.clone()))?;
        let mut out = vec![];
        if let M::Info { x, salt, .. } = ask(&mut server, &st, &t, b"nobody", None, true, false, &db)?.ok()?.1 {
            out.push(salt.into_bytes());
            out.push(x.compress().to_bytes().to_vec());
        }
        if let M::SInfo { bs, .. } = ask(&mut server, &st, &t, b"nobody", Some(BASE), true, false, &db)?.ok()?.1 {
            out.push(bs.compress().to_bytes().to_vec());
        }
        Some((out, st.since(0).bytes))
    };
    for round in 0..8u64 {
        let Some((out, drawn)) = go(&[], a.seed() * 100 + round) else { return };
        if drawn.len() < 8 {
            rep.finding(obj! {"what" => vec![format!("the server's secret is made from {} bytes of its generator", drawn.len())]});
            return;
        }
        for i in 0..drawn.len() {
            let mut f = drawn.clone();
            f[i] ^= 1 << ((round + i as u64) % 8);
            let Some((o, _)) = go(&f, a.seed() * 100 + round) else { return };
            rep.count("secret_bytes");
            for (k, (x, y)) in out.iter().zip(&o).enumerate() {
                if x == y {
                    let what = ["salt", "public value", "salt exponent"][k];
                    rep.finding(obj! {"what" => vec![format!("byte {i} of the randomness for the server's secret does not influence the decoy {what}")]});
                }
            }
            if rep.total_findings > 20 {
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- refused inputs (AuCPaceTable)

macro_rules! table_bufs {
    ($size:expr, $b:ident, $e:expr) => {
        with_buf!($size, $b, $e, [1, 2, 3, 4, 8, 16, 17, 64, 100, 255, 256, 257, 1024, 65535, 65536, 65537])
    };
}

/// what a call gives: the error, or what was registered and shown
type Made = Result<(M, Option<Pt>), Error>;

fn make(entry: &str, user: &[u8], pw: &[u8], buf: usize, par: TP, h: TH, tape: &Tape) -> Option<(Made, Vec<crate::hasher::Asked>)> {
    take_log();
    let mut c: AuCPaceClient<Sha512, TH, Tape, 16> = AuCPaceClient::new(tape.clone());
    let x = BASE * Scalar::from(77u64);
    let salt = SaltString::from_b64("c2FsdHNhbHQ").unwrap();
    let reg = |m: Result<ClientMessage<'_, 16>, Error>| m.map(|m| (cm(&m), None));
    let res = guard(|| -> Made {
        match entry {
            "register_alloc" => return reg(c.register_alloc(user, pw, par, h)),
            "register_alloc_strong" => return reg(c.register_alloc_strong(user, pw, par, h)),
            "register" => return reg(table_bufs!(buf, B, c.register::<_, B>(user, pw, par, h))),
            "register_strong" => return reg(table_bufs!(buf, B, c.register_strong::<_, B>(user, pw, par, h))),
            _ => {}
        }
        let pre = c.begin_prestablished_ssid([9u8; 16])?;
        let mut t2 = tape.clone();
        let st = if entry.contains("strong") {
            let (st, _) = pre.start_augmentation_strong(user, pw, &mut t2);
            match entry {
                "cpace_alloc_strong" => st.generate_cpace_alloc(x, x + x, par, h)?,
                _ => table_bufs!(buf, B, st.generate_cpace::<B>(x, x + x, par, h)?),
            }
        } else {
            let (st, _) = pre.start_augmentation(user, pw);
            match entry {
                "cpace_alloc" => st.generate_cpace_alloc(x, &salt, par, h)?,
                _ => table_bufs!(buf, B, st.generate_cpace::<_, B>(x, &salt, par, h)?),
            }
        };
        let (_, m) = st.generate_public_key(b"ci", &mut t2);
        let m = cm(&m);
        let p = if let M::Pub(p) = &m { Some(*p) } else { None };
        Ok((m, p))
    });
    res.map(|r| (r, take_log()))
}

fn kind_of(e: &Error) -> &'static str {
    match e {
        Error::PasswordHashing(_) => "PasswordHashing",
        Error::HashEmpty => "HashEmpty",
        Error::HashSizeInvalid => "HashSizeInvalid",
        Error::InsecureSsid => "InsecureSsid",
        Error::UsernameOrPasswordTooLong => "UsernameOrPasswordTooLong",
        Error::IllegalPointError => "IllegalPoint",
        Error::MutualAuthFail => "MutualAuthFail",
        #[allow(unreachable_patterns)]
        _ => "another error",
    }
}

fn table(a: &Args, file: &str, rep: &mut Report) {
    let want = if a.prop == "A06" { "ssid" } else { "hash" };
    let rows: Vec<J> = tlc_lines(file).into_iter().filter(|j| j.get("t").s() == want).collect();
    rep.add("table_rows", rows.len() as u64);
    let rounds = a.num("rounds", 2);
    let r = parallel(rows.len() * rounds, |i, rep| {
        if rep.total_findings > 30 {
            return;
        }
        let j = &rows[i % rows.len()];
        let mut r = Prng::new(&[a.seed(), i as u64, 61]);
        let mut bad = vec![];
        rep.count("table_replayed");
        let expect = j.get("status").s();
        if want == "ssid" {
            let n = j.get("n").n() as usize;
            let ssid = crate::strings::content(r.below(crate::strings::CONTENTS), n, &mut r);
            let t = Tape::new(&[a.seed(), i as u64]);
            let st = |r: Option<Result<(), Error>>| match r {
                None => "panic".to_string(),
                Some(Ok(())) => "Ok".to_string(),
                Some(Err(e)) => kind_of(&e).to_string(),
            };
            let c = st(guard(|| AuCPaceClient::<Sha512, TH, Tape, 16>::new(t.clone()).begin_prestablished_ssid(&ssid).map(|_| ())));
            let s = st(guard(|| AuCPaceServer::<Sha512, Tape, 16>::new(t.clone()).begin_prestablished_ssid(&ssid).map(|_| ())));
            for (who, got) in [("client", c), ("server", s)] {
                if got != expect {
                    bad.push(format!("the {who} answers an SSID of {n} bytes with {got} instead of {expect}"));
                }
            }
        } else {
            let e = j.get("e").s();
            let (u, p, b) = (j.get("u").n() as usize, j.get("p").n() as usize, j.get("b").n() as usize);
            let mut con = |n| {
                let k = r.below(crate::strings::CONTENTS);
                crate::strings::content(k, n, &mut r)
            };
            let (user, pw) = (con(u), con(p));
            let o = j.get("o");
            let n = o.get("n").n() as usize;
            let (h, par) = match o.get("k").s() {
                "out" => (Out::Bytes(n), TP("x=1".into(), None)),
                "none" => (Out::None, TP("x=1".into(), None)),
                "err" => (Out::Err(n), TP("x=1".into(), None)),
                _ => (Out::Bytes(32), TP("x=1".into(), Some(n))),
            };
            let t = Tape::new(&[a.seed(), i as u64, 5]);
            let got = make(e, &user, &pw, b, par.clone(), TH(h), &t);
            let name = match &got {
                None => "a panic",
                Some((Ok(_), _)) => "Ok",
                Some((Err(e), _)) => kind_of(e),
            };
            let row = format!("{e} with {u} + {p} bytes, a buffer of {b} and a hasher giving {:?}{}", h, par.1.map_or(String::new(), |n| format!(", parameters giving {:?}", crate::hasher::error(n))));
            if name != expect {
                bad.push(format!("{row} gives {name} instead of {expect}"));
            } else if let Some((Err(Error::PasswordHashing(x)), _)) = &got {
                if *x != crate::hasher::error(n) {
                    bad.push(format!("{row} gives the error {x:?}"));
                }
            }
            if name == "Ok" && expect == "Ok" && !e.contains("alloc") {
                // the same on the heap
                let heap = match e {
                    "register" => "register_alloc",
                    "register_strong" => "register_alloc_strong",
                    "cpace" => "cpace_alloc",
                    _ => "cpace_alloc_strong",
                };
                let t = Tape::new(&[a.seed(), i as u64, 5]);
                let other = make(heap, &user, &pw, b, par, TH(h), &t);
                rep.count("buffer_and_heap");
                if other != got {
                    bad.push(format!("{row} gives another result than on the heap: {got:?}, {other:?}"));
                }
            }
        }
        if !bad.is_empty() {
            rep.finding(obj! {"what" => bad, "row" => j.clone()});
        } else if i % 997 == 5 {
            rep.sample(j.clone());
        }
    });
    rep.merge(r);
}

/// changed authenticators
fn edits(a: &Args, behs: &[Beh], rep: &mut Report) {
    let honest: Vec<&Beh> = behs.iter().filter(|b| b.cfg.cexp && b.cfg.sexp && honest(b, "c1", "s1") && !b.evs.iter().any(|e| e.s == "c2")).collect();
    if honest.is_empty() {
        return;
    }
    let n = EDITS * 2;
    let rounds = a.num("rounds", 2);
    let r = parallel(n * rounds, |i, rep| {
        if rep.total_findings > 30 {
            return;
        }
        let b = honest[(i * 7 + i / n) % honest.len()];
        let p = profile(a.seed().wrapping_add(55), i);
        let mut r = Prng::new(&[p.seed, 23]);
        let case = Case { prof: p, hasher: Out::Bytes(32), wire: Wire::Direct, seed: r.u64(), ses: 0, edit: Some(i % n), params: param_strings(&mut r), foreign: false };
        let Some(strs) = concretise(&b.strs, &case.prof, 66_000) else { return };
        let op = if i % 2 == 0 { "sauth" } else { "cauth" };
        let st = if i / n % 2 == 0 {
            replay::<Sha512, Tape, 16>(b, &case, &strs, false, rep).map(|run| obs_of(b, &run, op, &op.replace("auth", "1")).map(|o| o.status.clone()))
        } else {
            replay::<Alt512, Tape, 32>(b, &case, &strs, false, rep).map(|run| obs_of(b, &run, op, &op.replace("auth", "1")).map(|o| o.status.clone()))
        };
        if let Some(Some(st)) = st {
            rep.count("changed_authenticators");
            if st != "MutualAuthFail" {
                rep.finding(obj! {"what" => vec![format!("{op} answers an authenticator changed (edit {}) with {st}", i % n / 2)], "case" => describe(b, &case, 0)});
            }
        }
    });
    rep.merge(r);
}
