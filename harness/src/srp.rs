//! Replays behaviours of spec/Srp*.tla into the srp crate.

use crate::json::{tlc_lines, J};
use crate::obj;
use crate::prng::Prng;
use crate::report::{hex, hexs, Report};
use crate::strings::{profile, sweeps, Conc, Profile};
use crate::term::{Terms, T};
use crate::util::{guard, parallel, Args};
use ::srp::client::{SrpClient, SrpClientVerifier};
use ::srp::server::{SrpServer, SrpServerVerifier};
use ::srp::types::{SrpAuthError, SrpGroup};
use ::srp::utils;
use digest::{Digest, FixedOutput, HashMarker, Output, OutputSizeUser, Update};
use num_bigint::BigUint;
use std::collections::HashMap;

pub type Int = BigUint;

// ---------------------------------------------------------------- the hash of SrpToy

#[derive(Clone)]
pub struct ToyDigest(u32);
impl Default for ToyDigest {
    fn default() -> Self {
        ToyDigest(7)
    }
}
impl HashMarker for ToyDigest {}
impl OutputSizeUser for ToyDigest {
    type OutputSize = digest::typenum::U2;
}
impl Update for ToyDigest {
    fn update(&mut self, data: &[u8]) {
        for b in data {
            self.0 = (self.0 * 33 + *b as u32 + 1) % 1021;
        }
    }
}
impl FixedOutput for ToyDigest {
    fn finalize_into(self, out: &mut Output<Self>) {
        out[0] = (self.0 >> 8) as u8;
        out[1] = self.0 as u8;
    }
}

// ---------------------------------------------------------------- groups

pub use crate::srpgroups::*;

// ---------------------------------------------------------------- behaviours

pub enum Step {
    Register { user: Vec<String>, pw: Vec<String>, salt: Vec<String>, out: T },
    CStart { s: String, user: Vec<String>, pw: Vec<String>, out: T },
    SStart { s: String, out: T },
    SReply { s: String, src: String, how: String, status: String, m1: T, m2: T, key: T },
    CReply { s: String, src: String, how: String, salt: Vec<String>, status: String, m1: T, m2: T, key: T },
    /// by a server or by a client
    Verify { client: bool, s: String, src: String, how: String, status: String },
}

pub struct Beh {
    pub steps: Vec<Step>,
    pub text: J,
    /// string terms and integer terms that occur
    pub strs: Vec<T>,
    pub ints: Vec<T>,
}

pub fn read_behaviours(path: &str, terms: &mut Terms) -> Vec<Beh> {
    let mut out = Vec::new();
    for j in tlc_lines(path) {
        let mut steps = Vec::new();
        let (mut strs, mut ints) = (Vec::new(), Vec::new());
        for e in j.arr() {
            let g = |k: &str| e.get(k).s().to_string();
            let mut t = |k: &str| {
                let t = terms.read(e.get(k));
                collect(&t, "str", &mut strs);
                collect(&t, "int", &mut ints);
                t
            };
            steps.push(match e.get("op").s() {
                "register" => Step::Register {
                    user: e.get("user").strs(),
                    pw: e.get("pw").strs(),
                    salt: e.get("salt").strs(),
                    out: t("out"),
                },
                "cstart" => Step::CStart { s: g("s"), user: e.get("user").strs(), pw: e.get("pw").strs(), out: t("out") },
                "sstart" => Step::SStart { s: g("s"), out: t("out") },
                "sreply" => Step::SReply {
                    s: g("s"), src: g("src"), how: g("how"), status: g("status"),
                    m1: t("m1"), m2: t("m2"), key: t("key"),
                },
                "creply" => Step::CReply {
                    s: g("s"), src: g("src"), how: g("how"), status: g("status"), salt: e.get("salt").strs(),
                    m1: t("m1"), m2: t("m2"), key: t("key"),
                },
                op => Step::Verify { client: op == "cverify", s: g("s"), src: g("src"), how: g("how"), status: g("status") },
            });
        }
        out.push(Beh { steps, text: slim(&j), strs, ints });
    }
    out
}

fn collect(t: &T, k: &str, out: &mut Vec<T>) {
    if t.k == k && !out.iter().any(|x| x.id == t.id) {
        out.push(t.clone());
    }
    for x in &t.a {
        collect(x, k, out);
    }
    for (x, _) in &t.e {
        collect(x, k, out);
    }
}

fn slim(j: &J) -> J {
    J::Arr(
        j.arr()
            .iter()
            .map(|e| match e {
                J::Obj(v) => J::Obj(v.iter().filter(|(k, _)| !matches!(k.as_str(), "out" | "key" | "m1" | "m2")).cloned().collect()),
                x => x.clone(),
            })
            .collect(),
    )
}

// ---------------------------------------------------------------- evaluation

/// Evaluates terms; `pad`: with the padding of RFC 5054 in u, or without.
pub struct Eval<'a> {
    pub grp: &'a SrpGroup,
    pub pad: bool,
    pub exps: &'a HashMap<u32, Int>,
    pub ints: &'a HashMap<u32, Int>,
    pub conc: &'a mut Conc,
    memo: HashMap<u32, Int>,
    hash: fn(&[&[u8]]) -> Vec<u8>,
}

pub fn be(i: &Int) -> Vec<u8> {
    i.to_bytes_be()
}

fn hash_of<D: Digest>(parts: &[&[u8]]) -> Vec<u8> {
    let mut d = D::new();
    for p in parts {
        d.update(p);
    }
    d.finalize().to_vec()
}

impl Eval<'_> {
    fn padded(&self, i: &Int) -> Vec<u8> {
        let b = be(i);
        let l = be(&self.grp.n).len();
        if self.pad && b.len() < l {
            let mut v = vec![0; l - b.len()];
            v.extend(b);
            v
        } else {
            b
        }
    }
    pub fn k(&self) -> Int {
        let n = be(&self.grp.n);
        let g = be(&self.grp.g);
        let z = vec![0u8; n.len().saturating_sub(g.len())];
        Int::from_bytes_be(&(self.hash)(&[&n, &z, &g]))
    }
    fn exp_atom(&mut self, t: &T) -> Int {
        if let Some(x) = self.exps.get(&t.id) {
            return x.clone();
        }
        if let Some(x) = self.memo.get(&t.id) {
            return x.clone();
        }
        let r = match t.v[0].as_str() {
            "x" => {
                let salt = self.bytes(&t.a[0]);
                let id = self.bytes(&t.a[1]);
                (self.hash)(&[&salt, &id])
            }
            "u" => {
                let (a, b) = (self.int(&t.a[0]), self.int(&t.a[1]));
                let (a, b) = (self.padded(&a), self.padded(&b));
                (self.hash)(&[&a, &b])
            }
            _ => panic!("exponent {}", t.show()),
        };
        let r = Int::from_bytes_be(&r);
        self.memo.insert(t.id, r.clone());
        r
    }
    fn exp_mono(&mut self, t: &T) -> Int {
        let mut r = Int::from(1u8);
        for (a, n) in &t.e {
            let x = self.exp_atom(a);
            for _ in 0..*n {
                r *= &x;
            }
        }
        r
    }
    fn base(&mut self, t: &T) -> Int {
        match t.k.as_str() {
            "g" => self.grp.g.clone(),
            "k" => self.k(),
            "poly" => self.ring(t),
            _ => self.ints[&t.id].clone(),
        }
    }
    pub fn ring(&mut self, t: &T) -> Int {
        if let Some(x) = self.memo.get(&t.id) {
            return x.clone();
        }
        let n = self.grp.n.clone();
        let mut r = Int::default();
        for (m, c) in &t.e {
            let mut p = Int::from(1u8) % &n;
            for (pw, times) in &m.e {
                let b = self.base(&pw.a[0]);
                let e = self.exp_mono(&pw.a[1]);
                let x = b.modpow(&e, &n);
                for _ in 0..*times {
                    p = (p * &x) % &n;
                }
            }
            let k = Int::from(c.unsigned_abs());
            p = (p * k) % &n;
            r = if *c > 0 { (r + p) % &n } else { (r + &n - p) % &n };
        }
        self.memo.insert(t.id, r.clone());
        r
    }
    pub fn int(&mut self, t: &T) -> Int {
        let r = self.ring(&t.a[0]);
        let n = &self.grp.n;
        match t.a[1].k.as_str() {
            "canon" => r,
            "plusN" => r + n,
            "plus2N" => r + n * 2u8,
            "plusNbig" => r + (n << 64),
            "any" => {
                let leaf = &t.a[0].e[0].0.e[0].0.a[0];
                self.ints[&leaf.id].clone()
            }
            o => panic!("offset {o}"),
        }
    }
    /// the bytes of an integer, proof or string
    pub fn bytes(&mut self, t: &T) -> Vec<u8> {
        match t.k.as_str() {
            "int" => be(&self.int(t)),
            "str" => self.conc.string(&t.v).unwrap(),
            "hash" => {
                let p: Vec<Vec<u8>> = t.a.iter().map(|x| self.bytes(x)).collect();
                let p: Vec<&[u8]> = p.iter().map(|x| &x[..]).collect();
                (self.hash)(&p)
            }
            _ => panic!("bytes of {}", t.show()),
        }
    }
}

// ---------------------------------------------------------------- replay

fn status<T>(r: &Option<Result<T, SrpAuthError>>) -> String {
    match r {
        None => "Panic".into(),
        Some(Ok(_)) => "Ok".into(),
        Some(Err(SrpAuthError::IllegalParameter(p))) => format!("IllegalParameter {p}"),
        Some(Err(SrpAuthError::BadRecordMac(_))) => "BadRecordMac".into(),
    }
}

enum V<D: Digest> {
    C(SrpClientVerifier<D>),
    S(SrpServerVerifier<D>),
}
impl<D: Digest> V<D> {
    fn key(&self) -> Vec<u8> {
        match self {
            V::C(v) => v.key().to_vec(),
            V::S(v) => v.key().to_vec(),
        }
    }
    fn proof(&self) -> Vec<u8> {
        match self {
            V::C(v) => v.proof().to_vec(),
            V::S(v) => v.proof().to_vec(),
        }
    }
    fn verify(&self, p: &[u8]) -> String {
        status(&guard(|| match self {
            V::C(v) => v.verify_server(p),
            V::S(v) => v.verify_client(p),
        }))
    }
}

/// (delivered bytes, raw integer that stands for a name)
fn tamper_val(m: &[u8], how: &str, grp: &SrpGroup, r: &mut Prng) -> (Vec<u8>, Option<Int>) {
    let n = &grp.n;
    let i = Int::from_bytes_be(m);
    let lz = |k: usize, b: Vec<u8>| {
        let mut v = vec![0; k];
        v.extend(b);
        v
    };
    let named = |i: Int| (be(&i), Some(i));
    match how {
        "none" => (m.to_vec(), None),
        "lz" => (lz(1, m.to_vec()), None),
        "lz9" => (lz(9, m.to_vec()), None),
        "lz300" => (lz(300, m.to_vec()), None),
        "zero" => (vec![0], None),
        "empty" => (vec![], None),
        "zeros" => (vec![0; be(n).len()], None),
        "N" => (be(n), None),
        "Nlz" => (lz(3, be(n)), None),
        "N2" => (be(&(n * 2u8)), None),
        "N256" => (be(&(n << 64)), None),
        "one" => (vec![1], None),
        "Nm1" => (be(&(n - 1u8)), None),
        "Np1" => (be(&(n + 1u8)), None),
        "plusN" => (be(&(i + n)), None),
        "plus2N" => (be(&(i + n * 2u8)), None),
        "plusNbig" => (be(&(i + (n << 64))), None),
        "neg" => (be(&((n - (i % n)) % n)), None),
        "timesg" => (be(&(i * &grp.g % n)), None),
        "g" => (be(&(&grp.g % n)), None),
        "rand" => named(Int::from_bytes_be(&r.bytes(be(n).len())) % n),
        "randbig" => {
            let l = be(n).len() + 1 + r.below(100);
            named(Int::from_bytes_be(&r.bytes(l)))
        }
        "flip" => {
            let mut v = m.to_vec();
            if v.is_empty() {
                v.push(0);
            }
            let k = r.below(v.len());
            v[k] ^= 1 << r.below(8);
            let i = Int::from_bytes_be(&v);
            (v, Some(i))
        }
        "trunc" => {
            let v = m[..m.len().saturating_sub(1)].to_vec();
            let i = Int::from_bytes_be(&v);
            (v, Some(i))
        }
        "ext" => {
            let mut v = m.to_vec();
            v.push(r.below(256) as u8);
            let i = Int::from_bytes_be(&v);
            (v, Some(i))
        }
        _ => panic!("value {how}"),
    }
}

/// None if the change is none here
fn tamper_proof(p: &[u8], how: &str, r: &mut Prng) -> Option<Vec<u8>> {
    let mut v = p.to_vec();
    match how {
        "none" => return Some(v),
        "flip" => {
            let k = r.below(v.len());
            v[k] ^= 1 << r.below(8);
        }
        "empty" => v.clear(),
        "trunc" => {
            v.pop();
        }
        "td" => {
            v.remove(0);
        }
        "ext" => v.push(r.below(256) as u8),
        "lz" => v.insert(0, 0),
        "zeros" => v.iter_mut().for_each(|b| *b = 0),
        "rev" => v.reverse(),
        _ => panic!("proof {how}"),
    }
    (v != p).then_some(v)
}

struct ReplyObs<'a> {
    name: &'a str,
    expect: &'a str,
    got: String,
    m1: &'a T,
    m2: &'a T,
    key: &'a T,
    client: bool,
    given: Vec<u8>,
}

pub struct Case {
    pub grp: SrpGroup,
    pub prof: Profile,
    pub what: String,
    /// how the ephemeral values are made
    pub eph: usize,
}

fn ephemeral(kind: usize, grp: &SrpGroup, r: &mut Prng) -> Vec<u8> {
    let n = &grp.n;
    match kind {
        0 => r.bytes(32),
        1 => {
            let l = *r.pick(&[0usize, 1, 2, 8, 16, 20, 31, 33, 48, 64, 65]);
            r.bytes(l)
        }
        2 => {
            let mut v = r.bytes(32);
            let z = 1 + r.below(20);
            v[..z].iter_mut().for_each(|b| *b = 0);
            v
        }
        3 => vec![r.below(100) as u8],
        4 => match r.below(7) {
            0 => vec![],
            1 => vec![0; r.below(40)],
            2 => vec![1],
            3 => be(&(n - 1u8)),
            4 => be(&((n - 1u8) / 2u8)),
            5 => be(n),
            _ => be(&(n + 1u8)),
        },
        5 => vec![0xff; *r.pick(&[16usize, 32, 33, 64])],
        // longer than the modulus
        _ => {
            let l = be(n).len() + 1 + r.below(8);
            if l < 100 {
                r.bytes(l)
            } else {
                r.bytes(24)
            }
        }
    }
}

/// Runs one behaviour; returns what is wrong by the property.
fn replay<D: Digest>(prop: &str, b: &Beh, case: &Case, seed: u64, rep: &mut Report, toyhash: bool) -> Option<Vec<String>> {
    let grp = &case.grp;
    let mut conc = Conc::new(case.prof.clone());
    let mut r = Prng::new(&[seed, case.prof.seed, 5]);
    let client = SrpClient::<D>::new(grp);
    let server = SrpServer::<D>::new(grp);
    let mut bad: Vec<String> = vec![];
    // strings the specification considers different got different bytes?
    let mut distinct = true;
    {
        let mut seen: HashMap<Vec<u8>, u32> = HashMap::new();
        for s in &b.strs {
            let v = conc.string(&s.v)?;
            if seen.insert(v, s.id).is_some() {
                distinct = false;
            }
        }
    }
    let mut exps: HashMap<u32, Int> = HashMap::new();
    let mut ints: HashMap<u32, Int> = HashMap::new();
    let mut verifier = vec![];
    let mut creds: HashMap<&str, (Vec<u8>, Vec<u8>)> = HashMap::new();
    let mut eph: HashMap<&str, Vec<u8>> = HashMap::new();
    let mut public: HashMap<&str, Vec<u8>> = HashMap::new();
    let mut obs: Vec<ReplyObs> = vec![];
    let mut ver: HashMap<&str, V<D>> = HashMap::new();
    // every value with the term that it must equal
    let mut values: Vec<(String, Vec<u8>, &T)> = vec![];
    let mut funcs: Vec<Func> = vec![];
    let mut k_ok = true;
    for (n, st) in b.steps.iter().enumerate() {
        match st {
            Step::Register { user, pw, salt, out } => {
                let (u, p, s) = (conc.string(user)?, conc.string(pw)?, conc.string(salt)?);
                match guard(|| client.compute_verifier(&u, &p, &s)) {
                    None => return Some(vec!["compute_verifier panicked".into()]),
                    Some(v) => {
                        if prop == "R05" {
                            values.push(("verifier".into(), v.clone(), out));
                        }
                        verifier = v;
                    }
                }
            }
            Step::CStart { s, user, pw, out } => {
                let a = ephemeral(case.eph, grp, &mut r);
                creds.insert(s, (conc.string(user)?, conc.string(pw)?));
                find_rnd(out, &mut |t| {
                    exps.insert(t.id, Int::from_bytes_be(&a));
                });
                match guard(|| client.compute_public_ephemeral(&a)) {
                    None => return Some(vec![format!("client compute_public_ephemeral({}) panicked", hexs(&a))]),
                    Some(v) => {
                        values.push((format!("A of {s}"), v.clone(), out));
                        public.insert(s, v);
                    }
                }
                eph.insert(s, a);
            }
            Step::SStart { s, out } => {
                let kind = if case.eph == 4 { [0, 4][r.below(2)] } else { case.eph };
                let v = ephemeral(kind, grp, &mut r);
                find_rnd(out, &mut |t| {
                    if t.v[0] == *s {
                        exps.insert(t.id, Int::from_bytes_be(&v));
                    }
                });
                match guard(|| server.compute_public_ephemeral(&v, &verifier)) {
                    None => return Some(vec![format!("server compute_public_ephemeral({}) panicked", hexs(&v))]),
                    Some(x) => {
                        values.push((format!("B of {s}"), x.clone(), out));
                        public.insert(s, x);
                    }
                }
                eph.insert(s, v);
            }
            Step::SReply { s, src, how, status: want, m1, m2, key } => {
                let (given, named) = tamper_val(&public[&src[..]], how, grp, &mut r);
                bind(named, how, s, m1, &mut ints);
                let res = guard(|| server.process_reply(&eph[&s[..]], &verifier, &given));
                let got = status(&res);
                obs.push(ReplyObs { name: s, expect: want, got, m1, m2, key, client: false, given });
                if let Some(Ok(v)) = res {
                    ver.insert(s, V::S(v));
                }
            }
            Step::CReply { s, src, how, salt, status: want, m1, m2, key } => {
                let (given, named) = tamper_val(&public[&src[..]], how, grp, &mut r);
                bind(named, how, s, m1, &mut ints);
                let salt = conc.string(salt)?;
                let (u, p) = &creds[&s[..]];
                let res = guard(|| client.process_reply(&eph[&s[..]], u, p, &salt, &given));
                let got = status(&res);
                if prop == "R05" {
                    funcs.push(Func { u: u.clone(), p: p.clone(), salt, a: eph[&s[..]].clone(), bpub: given.clone() });
                }
                obs.push(ReplyObs { name: s, expect: want, got, m1, m2, key, client: true, given });
                if let Some(Ok(v)) = res {
                    ver.insert(s, V::C(v));
                }
            }
            Step::Verify { client: _, s, src, how, status: want } => {
                if !matches!(prop, "R01" | "R02" | "R04") {
                    continue;
                }
                let (Some(me), Some(from)) = (ver.get(&s[..]), ver.get(&src[..])) else {
                    // an accidental zero
                    return None;
                };
                let (before_k, before_p) = (me.key(), me.proof());
                let Some(proof) = tamper_proof(&from.proof(), how, &mut r) else { return None };
                let got = me.verify(&proof);
                match prop {
                    "R01" if want == "Ok" => {
                        rep.count("accepted_proofs");
                        if got != "Ok" {
                            bad.push(format!("step {n}: {s} answers {got} to the proof of its honest partner {src}"));
                        } else if me.key() != from.key() {
                            bad.push(format!("step {n}: {s} and {src} hold different keys {} {}", hexs(&me.key()), hexs(&from.key())));
                        }
                    }
                    "R02" if want != "Ok" => {
                        if !distinct || toyhash {
                            return None;
                        }
                        rep.count("rejected_proofs");
                        if got != want.as_str() {
                            // the formula decides whether the values coincide by accident
                            bad.push(format!("step {n}: {s} answers {got} to the proof {} from {src}", hexs(&proof)));
                        }
                    }
                    "R04" => {
                        if toyhash || !distinct {
                            return None;
                        }
                        rep.count("verifications");
                        if got != want.as_str() {
                            bad.push(format!("step {n}: {s} answers {got} instead of {want} to the proof {} from {src}", hexs(&proof)));
                        }
                        // every neighbour of the proof is wrong
                        let good = from.proof();
                        let mut cand: Vec<Vec<u8>> = vec![before_p.clone()];
                        for i in 0..good.len() * 8 {
                            let mut v = good.clone();
                            v[i / 8] ^= 1 << (i % 8);
                            cand.push(v);
                        }
                        for i in 0..good.len() {
                            cand.push(good[..i].to_vec());
                            cand.push(good[good.len() - i..].to_vec());
                            let mut v = good.clone();
                            v[i] = v[i].wrapping_add(1);
                            cand.push(v);
                        }
                        for x in 0..=255u8 {
                            let mut v = good.clone();
                            v.push(x);
                            cand.push(v);
                        }
                        cand.push([&good[..], &good[..]].concat());
                        cand.push([&good[..], &before_p[..]].concat());
                        cand.push([&[0u8; 32][..], &good[..]].concat());
                        cand.push(vec![0; good.len()]);
                        cand.push(vec![0xff; good.len()]);
                        cand.push(before_k.clone());
                        cand.extend(disguises(&good));
                        for (k, v) in cand.iter().enumerate() {
                            // in a mismatched session even the untouched proof is not there by accident
                            rep.count("wrong_proofs");
                            let got = me.verify(v);
                            if got != "BadRecordMac" {
                                bad.push(format!("step {n}: {s} answers {got} to the wrong proof {} (candidate {k}, {src} sent {})", hexs(v), hexs(&good)));
                                break;
                            }
                        }
                        // and verification has changed nothing
                        let again = me.verify(&proof);
                        if again != got {
                            bad.push(format!("step {n}: {s} answers {again} to a proof it had answered {got}"));
                        }
                        if me.key() != before_k || me.proof() != before_p {
                            bad.push(format!("step {n}: verification changed key or proof of {s}"));
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    match prop {
        "R01" => {
            // matching sessions by the specification: same key term
            for (i, x) in obs.iter().enumerate() {
                for y in &obs[..i] {
                    if x.client != y.client && !x.key.is_none() && x.key.id == y.key.id {
                        rep.count("matching_pairs");
                        // an accidental zero is rejected
                        if zero(&x.given, grp) || zero(&y.given, grp) {
                            continue;
                        }
                        match (ver.get(x.name), ver.get(y.name)) {
                            (Some(v), Some(w)) => {
                                if v.key() != w.key() {
                                    bad.push(format!("{} and {} hold different keys {} {}", x.name, y.name, hexs(&v.key()), hexs(&w.key())));
                                }
                                let (a, b) = (v.verify(&w.proof()), w.verify(&v.proof()));
                                if a != "Ok" || b != "Ok" {
                                    bad.push(format!("{} answers {a} and {} answers {b} to the other's proof", x.name, y.name));
                                }
                            }
                            _ => bad.push(format!("{}: {}, {}: {}", x.name, x.got, y.name, y.got)),
                        }
                    }
                }
            }
        }
        "R02" => {
            if !distinct || toyhash {
                return None;
            }
            for (i, x) in obs.iter().enumerate() {
                for y in &obs[..i] {
                    if x.client != y.client && !x.key.is_none() && !y.key.is_none() && x.key.id != y.key.id {
                        if let (Some(v), Some(w)) = (ver.get(x.name), ver.get(y.name)) {
                            rep.count("mismatched_pairs");
                            let (a, b) = (v.verify(&w.proof()), w.verify(&v.proof()));
                            if v.key() == w.key() {
                                bad.push(format!("{} and {} hold the same key {}", x.name, y.name, hexs(&v.key())));
                            }
                            if a != "BadRecordMac" || b != "BadRecordMac" {
                                bad.push(format!("{} answers {a} and {} answers {b} to the other's proof", x.name, y.name));
                            }
                        }
                    }
                }
            }
        }
        "R03" => {
            for x in &obs {
                rep.count("replies");
                let z = zero(&x.given, grp);
                // the specification's verdict holds unless the value is zero by accident
                let want = if z {
                    if x.client { "IllegalParameter b_pub" } else { "IllegalParameter a_pub" }
                } else {
                    "Ok"
                };
                rep.count(&format!("expected_{want}"));
                if x.got != want {
                    bad.push(format!("{}: process_reply with the public value {} answers {}, expected {want}", x.name, hexs(&x.given), x.got));
                }
                if want != x.expect {
                    rep.count("accidental_zeros");
                }
            }
        }
        "R05" => {
            for x in &obs {
                if let Some(v) = ver.get(x.name) {
                    if x.key.is_none() {
                        continue;
                    }
                    values.push((format!("key of {}", x.name), v.key(), x.key));
                    values.push((format!("proof of {}", x.name), v.proof(), if x.client { x.m1 } else { x.m2 }));
                }
            }
            let h = hash_of::<D>;
            let mut pad = Eval { grp, pad: true, exps: &exps, ints: &ints, conc: &mut conc, memo: HashMap::new(), hash: h };
            let want: Vec<Vec<u8>> = values.iter().map(|(_, _, t)| pad.bytes(t)).collect();
            let k = pad.k();
            k_ok &= guard(|| utils::compute_k::<D>(grp)) == Some(k.clone());
            // public values with leading zeros: A and B as delivered or computed
            let l = be(&grp.n).len();
            let short = b.ints.iter().any(|t| pad.bytes(t).len() < l);
            let mut raw = Eval { grp, pad: false, exps: &exps, ints: &ints, conc: pad.conc, memo: HashMap::new(), hash: h };
            for ((name, got, t), want) in values.iter().zip(&want) {
                rep.count("values");
                if got == want {
                    continue;
                }
                if short && *got == raw.bytes(t) {
                    rep.count("unpadded_u");
                    rep.known.insert("unpadded-u".into(), format!("{name} {} instead of {}", hexs(got), hexs(want)));
                    continue;
                }
                bad.push(format!("{name} is {} instead of {}", hexs(got), hexs(want)));
            }
            // the exact acceptance of proofs follows from the values: expected proofs are not visible
            // otherwise, so let each side verify the value that the formulas give
            for x in &obs {
                if let Some(v) = ver.get(x.name) {
                    if x.key.is_none() {
                        continue;
                    }
                    let other = if x.client { x.m2 } else { x.m1 };
                    let (w1, w2) = (pad_bytes(&mut raw, other, true), pad_bytes(&mut raw, other, false));
                    rep.count("expected_proofs");
                    if v.verify(&w1) == "Ok" {
                        continue;
                    }
                    if short && v.verify(&w2) == "Ok" {
                        rep.known.insert("unpadded-u".into(), format!("{} expects the proof {} instead of {}", x.name, hexs(&w2), hexs(&w1)));
                        continue;
                    }
                    bad.push(format!("{} does not accept the proof {}", x.name, hexs(&w1)));
                }
            }
            if !k_ok {
                bad.push(format!("compute_k is not H(N|PAD(g)) = {k}"));
            }
            for f in &funcs {
                f.check::<D>(grp, &client, &server, &verifier, &mut bad, rep);
            }
        }
        _ => {}
    }
    if !bad.is_empty() && matches!(prop, "R02" | "R04") {
        // does the specification's idealisation hold here: different integers for different terms?
        let h = hash_of::<D>;
        for pad in [true, false] {
            let mut e = Eval { grp, pad, exps: &exps, ints: &ints, conc: &mut conc, memo: HashMap::new(), hash: h };
            let mut v: Vec<Int> = b.ints.iter().map(|t| e.int(t)).collect();
            v.sort();
            let n = v.len();
            v.dedup();
            if v.len() != n {
                rep.count("coincidences");
                return None;
            }
        }
    }
    Some(bad)
}

fn pad_bytes(e: &mut Eval, t: &T, pad: bool) -> Vec<u8> {
    e.pad = pad;
    e.memo.clear();
    let r = e.bytes(t);
    e.pad = false;
    e.memo.clear();
    r
}

/// the public functions that the handshake is made of
struct Func {
    u: Vec<u8>,
    p: Vec<u8>,
    salt: Vec<u8>,
    a: Vec<u8>,
    bpub: Vec<u8>,
}

impl Func {
    fn check<D: Digest>(&self, grp: &SrpGroup, client: &SrpClient<D>, server: &SrpServer<D>, v: &[u8], bad: &mut Vec<String>, rep: &mut Report) {
        let n = &grp.n;
        let h = hash_of::<D>;
        let i = Int::from_bytes_be;
        let id = h(&[&self.u, b":", &self.p]);
        let x = i(&h(&[&self.salt, &id]));
        let (a, b, v) = (i(&self.a), i(&self.bpub), i(v));
        let k = utils::compute_k::<D>(grp);
        let l = be(n).len();
        let padto = |x: &Int| {
            let b = be(x);
            let mut v = vec![0; l.saturating_sub(b.len())];
            v.extend(b);
            v
        };
        let apub = grp.g.modpow(&a, n);
        let u = i(&h(&[&padto(&apub), &padto(&b)]));
        let s = ((&b % n) + n - (&k % n) * grp.g.modpow(&x, n) % n).modpow(&(&a + &u * &x), n);
        let ss = (&b * v.modpow(&u, n)).modpow(&a, n);
        let m1 = h(&[&be(&apub), &be(&b), &be(&s)]);
        let mut check = |what: &str, got: Option<Vec<u8>>, want: Vec<u8>| {
            rep.count("function_values");
            if got.as_deref() != Some(&want[..]) {
                bad.push(format!("{what} gives {:?} instead of {}", got.map(|g| hexs(&g)), hexs(&want)));
            }
        };
        check("compute_identity_hash", guard(|| SrpClient::<D>::compute_identity_hash(&self.u, &self.p).to_vec()), id.clone());
        check("compute_x", guard(|| be(&SrpClient::<D>::compute_x(&id, &self.salt))), be(&x));
        check("compute_v", guard(|| be(&client.compute_v(&x))), be(&grp.g.modpow(&x, n)));
        check("compute_a_pub", guard(|| be(&client.compute_a_pub(&a))), be(&apub));
        check("compute_b_pub", guard(|| be(&server.compute_b_pub(&a, &k, &v))), be(&((&k * &v + grp.g.modpow(&a, n)) % n)));
        check("compute_u", guard(|| be(&utils::compute_u::<D>(&padto(&apub), &padto(&b)))), be(&u));
        check("client premaster secret", guard(|| be(&client.compute_premaster_secret(&b, &k, &x, &a, &u))), be(&s));
        check("server premaster secret", guard(|| be(&server.compute_premaster_secret(&b, &v, &u, &a))), be(&ss));
        check("compute_m1", guard(|| utils::compute_m1::<D>(&be(&apub), &be(&b), &be(&s)).to_vec()), m1.clone());
        check(
            "compute_m2",
            guard(|| {
                let mut o = Output::<D>::default();
                o.copy_from_slice(&m1);
                utils::compute_m2::<D>(&be(&apub), &o, &be(&s)).to_vec()
            }),
            h(&[&be(&apub), &m1, &be(&s)]),
        );
    }
}

fn zero(b: &[u8], grp: &SrpGroup) -> bool {
    Int::from_bytes_be(b) % &grp.n == Int::default()
}

fn find_rnd(t: &T, f: &mut impl FnMut(&T)) {
    if t.k == "rnd" {
        f(t);
    }
    for x in &t.a {
        find_rnd(x, f);
    }
    for (x, _) in &t.e {
        find_rnd(x, f);
    }
}

/// an unknown public value of the specification stands for the integer delivered
fn bind(i: Option<Int>, how: &str, s: &str, t: &T, ints: &mut HashMap<u32, Int>) {
    if let Some(i) = i {
        let mut v = vec![];
        collect(t, how, &mut v);
        for x in v {
            if x.v.first().map(|n| n == s).unwrap_or(false) {
                ints.insert(x.id, i.clone());
            }
        }
    }
}

fn describe(b: &Beh, c: &Case) -> J {
    let mut conc = Conc::new(c.prof.clone());
    let strs: Vec<J> = b.strs.iter().map(|s| J::Str(format!("{}={}", s.v.join("+"), conc.string(&s.v).map(|v| hexs(&v)).unwrap_or_default()))).collect();
    obj! {"behaviour" => b.text.clone(), "group" => c.what.clone(), "ephemeral" => c.eph as i64, "profile" => format!("{:?}", c.prof), "strings" => strs}
}

pub fn conformance(a: &Args, rep: &mut Report) {
    let prop = a.prop.as_str();
    let seed = a.seed();
    if prop == "R06" {
        return groups_check(a, rep);
    }
    let mut terms = Terms::default();
    let behs = read_behaviours(a.opt("beh").unwrap(), &mut terms);
    rep.add("behaviours", behs.len() as u64);
    let profiles = a.num("profiles", 60);
    let real = a.num("real", 1);
    let strs: Vec<Vec<Vec<String>>> = behs.iter().map(|b| b.strs.iter().map(|s| s.v.clone()).collect()).collect();
    let swept = sweeps(seed, &strs.iter().collect::<Vec<_>>(), a.num("sweep", 6), |i| {
        prop != "R01" || behs[i].steps.iter().any(|s| matches!(s, Step::Verify { status, .. } if status == "Ok"))
    });
    let plain = behs.len() * profiles;
    let r = parallel(plain + swept.len(), |i, rep| {
        let (bi, pi) = if i < plain { (i % behs.len(), i / behs.len()) } else { (swept[i - plain].0, i) };
        let b = &behs[bi];
        let mut p = profile(seed.wrapping_add(bi as u64 * 104_729), pi + bi);
        if i >= plain {
            p.sweep = swept[i - plain].1.clone();
            rep.count("swept");
        }
        let mut r = Prng::new(&[p.seed, bi as u64, 17]);
        let (grp, what) = if pi < real {
            let bits = *r.pick(&[1024, 1024, 1024, 1024, 1024, 1024, 1536, 1536, 1536, 2048, 2048, 3072, 3072, 4096, 6144, 8192]);
            (builtin(bits), format!("G_{bits}"))
        } else {
            let k = r.below(CUSTOM.len());
            (custom(k), format!("{} bits", CUSTOM[k].0))
        };
        let case = Case { grp, prof: p, what, eph: r.below(7) };
        let d = r.below(if matches!(prop, "R02" | "R04") { 5 } else { 6 });
        let res = match d {
            0 => replay::<sha1::Sha1>(prop, b, &case, seed, rep, false),
            1 => replay::<sha2::Sha256>(prop, b, &case, seed, rep, false),
            2 => replay::<sha2::Sha512>(prop, b, &case, seed, rep, false),
            3 => replay::<sha2::Sha224>(prop, b, &case, seed, rep, false),
            4 => replay::<sha2::Sha384>(prop, b, &case, seed, rep, false),
            _ => replay::<ToyDigest>(prop, b, &case, seed, rep, true),
        };
        match res {
            None => rep.count("skipped"),
            Some(bad) => {
                rep.count("replayed");
                if !bad.is_empty() {
                    rep.finding(obj! {"what" => bad, "digest" => d as i64, "case" => describe(b, &case)});
                } else if bi % 50 == 3 {
                    rep.sample(describe(b, &case));
                }
            }
        }
    });
    rep.merge(r);
    for f in ["toy23", "toy719"] {
        if let Some(f) = a.opt(f) {
            toy(prop, f, rep);
        }
    }
    if prop == "R03" {
        fuzz(a, rep);
    }
}

fn groups_check(a: &Args, rep: &mut Report) {
    for j in tlc_lines(a.opt("groups").unwrap()) {
        rep.count("groups");
        let hexn: String = j.get("n").strs().concat();
        let n = Int::parse_bytes(hexn.as_bytes(), 16).unwrap();
        let bits = j.get("bits").n();
        let want = SrpGroup { n, g: Int::from(j.get("g").n() as u64) };
        let mut bad = vec![];
        match guard(|| builtin(bits)) {
            None => bad.push(format!("G_{bits} panics")),
            Some(g) => {
                if g.n != want.n {
                    bad.push(format!("the modulus of G_{bits} is {:x} ({} bits) instead of {:x}", g.n, g.n.bits(), want.n));
                }
                if g.g != want.g {
                    bad.push(format!("the generator of G_{bits} is {} instead of {}", g.g, want.g));
                }
                if g.n.bits() != bits as u64 {
                    bad.push(format!("the modulus of G_{bits} has {} bits", g.n.bits()));
                }
                // a safe prime with the generator a primitive root: Fermat to a few bases for N and
                // (N-1)/2 (the specification's own moduli were proved when it was written)
                let one = Int::from(1u8);
                let q: Int = (&g.n - 1u8) / 2u8;
                if bits <= 2048 || a.thorough() {
                    for base in [3u8, 7, 11] {
                        let base = Int::from(base);
                        if base.modpow(&(&g.n - 1u8), &g.n) != one || base.modpow(&(&q - 1u8), &q) != one {
                            bad.push(format!("the modulus of G_{bits} is not a safe prime"));
                        }
                    }
                }
                if g.g.modpow(&q, &g.n) == one || g.g.modpow(&(&g.n - 1u8), &g.n) != one {
                    bad.push(format!("{} is no generator modulo the modulus of G_{bits}", g.g));
                }
                // a handshake in the group
                let p = profile(a.seed(), bits as usize);
                let mut r = Prng::new(&[a.seed(), bits as u64]);
                let (x, y) = (r.bytes(32), r.bytes(32));
                let mut conc = Conc::new(p);
                let pw = conc.string(&["p".to_string()]).unwrap();
                let ok = guard(|| {
                    let c = SrpClient::<sha2::Sha256>::new(&g);
                    let s = SrpServer::<sha2::Sha256>::new(&g);
                    let v = c.compute_verifier(b"u", &pw, b"salt");
                    let (ap, bp) = (c.compute_public_ephemeral(&x), s.compute_public_ephemeral(&y, &v));
                    let cv = c.process_reply(&x, b"u", &pw, b"salt", &bp).ok()?;
                    let sv = s.process_reply(&y, &v, &ap).ok()?;
                    let exp = want.g.modpow(&Int::from_bytes_be(&x), &want.n);
                    Some(ap == be(&exp) && cv.key() == sv.key() && sv.verify_client(cv.proof()).is_ok() && cv.verify_server(sv.proof()).is_ok())
                });
                if ok != Some(Some(true)) {
                    bad.push(format!("a handshake in G_{bits} fails"));
                }
            }
        }
        rep.count("replayed");
        if bad.is_empty() {
            rep.sample(obj! {"group" => format!("G_{bits}"), "g" => j.get("g").n()});
        } else {
            rep.finding(obj! {"what" => bad});
        }
    }
}

/// SrpToy: every value of every handshake
fn toy(prop: &str, file: &str, rep: &mut Report) {
    let rows = tlc_lines(file);
    rep.add("toy_rows", rows.len() as u64);
    let r = parallel(rows.len(), |i, rep| {
        let j = &rows[i];
        let num = |k: &str| Int::from(j.get(k).n() as u64);
        let bytes = |k: &str| -> Vec<u8> { j.get(k).arr().iter().map(|x| x.n() as u8).collect() };
        let grp = SrpGroup { n: num("n"), g: num("g") };
        let c = SrpClient::<ToyDigest>::new(&grp);
        let s = SrpServer::<ToyDigest>::new(&grp);
        let (user, pw, salt) = (bytes("user"), bytes("pw"), bytes("salt"));
        let kind = j.get("kind").s();
        let mut bad = vec![];
        rep.count("toy_replayed");
        let (a, b) = (be(&num("a")), be(&num("b")));
        let (a, b) = (&a[..], &b[..]);
        let v0 = guard(|| c.compute_verifier(&user, &pw, &salt));
        let v = be(&num("v"));
        let ap = guard(|| c.compute_public_ephemeral(a));
        let bp = guard(|| s.compute_public_ephemeral(b, &v));
        let l = be(&grp.n).len();
        // the sides as delivered
        let sres = guard(|| s.process_reply(b, &v, &be(&num("AD"))));
        let cres = guard(|| c.process_reply(a, &user, &pw, &salt, &be(&num("BD"))));
        let (sst, cst) = (status(&sres), status(&cres));
        let outcome = |r: &J| -> Option<(Vec<u8>, Vec<u8>, Vec<u8>)> {
            let f = |k: &str| -> Vec<u8> { r.get(k).arr().iter().map(|x| x.n() as u8).collect() };
            (r.get("status").s() == "Ok").then(|| (f("m1"), f("m2"), f("key")))
        };
        match prop {
            "R01" => {
                if kind == "honest" {
                    match (&sres, &cres) {
                        (Some(Ok(sv)), Some(Ok(cv))) => {
                            rep.count("toy_agreements");
                            if sv.key() != cv.key() || sv.verify_client(cv.proof()).is_err() || cv.verify_server(sv.proof()).is_err() {
                                bad.push("honest handshake does not authenticate".to_string());
                            }
                        }
                        // illegal only if B is zero
                        _ if j.get("B").n() == 0 && sst == "Ok" && cst == "IllegalParameter b_pub" => {}
                        _ => bad.push(format!("honest handshake: server {sst}, client {cst}")),
                    }
                }
            }
            "R03" => {
                for (got, want, val) in [(&sst, j.get("sp").get("status").s(), "AD"), (&cst, j.get("cp").get("status").s(), "BD")] {
                    rep.count("toy_replies");
                    if got != want {
                        bad.push(format!("the public value {} is answered {got} instead of {want}", j.get(val).n()));
                    }
                }
            }
            "R05" => {
                let mut check = |what: &str, got: Option<Vec<u8>>, want: Int| {
                    rep.count("toy_values");
                    if got.as_deref() != Some(&be(&want)[..]) {
                        bad.push(format!("{what} is {got:?} instead of {want}"));
                    }
                };
                check("k", guard(|| be(&utils::compute_k::<ToyDigest>(&grp))), num("k"));
                if kind != "v" {
                    check("verifier", v0, num("v"));
                }
                check("A", ap, num("A"));
                check("B", bp, num("B"));
                let short = |k: &str| be(&num(k)).len() < l;
                for (name, st, sh, p, q) in [("server", &sst, short("AD") || short("B"), "sp", "sr"), ("client", &cst, short("A") || short("BD"), "cp", "cr")] {
                    let (w, raw) = (outcome(j.get(p)), outcome(j.get(q)));
                    let Some(w) = w else { continue };
                    if st != "Ok" {
                        bad.push(format!("{name}: {st}"));
                        continue;
                    }
                    let (proof, key, ok1, ok2) = if name == "server" {
                        let v = sres.as_ref().unwrap().as_ref().unwrap();
                        (v.proof().to_vec(), v.key().to_vec(), v.verify_client(&w.0).is_ok(), raw.as_ref().map(|r| v.verify_client(&r.0).is_ok()))
                    } else {
                        let v = cres.as_ref().unwrap().as_ref().unwrap();
                        (v.proof().to_vec(), v.key().to_vec(), v.verify_server(&w.1).is_ok(), raw.as_ref().map(|r| v.verify_server(&r.1).is_ok()))
                    };
                    rep.count("toy_values");
                    let mine = |o: &(Vec<u8>, Vec<u8>, Vec<u8>)| if name == "server" { o.1.clone() } else { o.0.clone() };
                    if proof == mine(&w) && key == w.2 && ok1 {
                        continue;
                    }
                    if sh && raw.is_some() && proof == mine(raw.as_ref().unwrap()) && key == raw.as_ref().unwrap().2 && ok2 == Some(true) {
                        rep.known.insert("unpadded-u".into(), format!("row {i}"));
                        rep.count("unpadded_u");
                        continue;
                    }
                    bad.push(format!("{name}: key {} proof {} instead of {} {}", hex(&key), hex(&proof), hex(&w.2), hex(&mine(&w))));
                }
            }
            "R04" => {
                // the one accepted proof, among all of them
                for client in [false, true] {
                    let f = |p: &[u8]| match client {
                        true => cres.as_ref().and_then(|r| r.as_ref().ok()).map(|v| v.verify_server(p).is_ok()),
                        false => sres.as_ref().and_then(|r| r.as_ref().ok()).map(|v| v.verify_client(p).is_ok()),
                    };
                    if f(&[]).is_none() || i % 16 != 0 {
                        continue;
                    }
                    rep.count("toy_exhaustive_verifications");
                    let ok: Vec<u16> = (0..=u16::MAX).filter(|p| f(&p.to_be_bytes()) == Some(true)).collect();
                    let one: Vec<u8> = (0..=255).filter(|p| f(&[*p]) == Some(true)).collect();
                    if ok.len() != 1 || !one.is_empty() || f(&[]) == Some(true) {
                        bad.push(format!("accepted two-byte proofs {ok:?}, one-byte proofs {one:?}"));
                    }
                }
            }
            _ => {}
        }
        if !bad.is_empty() {
            rep.finding(obj! {"what" => bad, "case" => j.clone()});
        }
    });
    rep.merge(r);
}

/// the same proof written in another way, or altered in a way that a lax comparison forgives
fn disguises(p: &[u8]) -> Vec<Vec<u8>> {
    let hex: String = p.iter().map(|b| format!("{b:02x}")).collect();
    let up = hex.to_uppercase();
    let b64 = |v: &[u8], pad: bool, url: bool| -> String {
        let abc: Vec<char> = ('A'..='Z').chain('a'..='z').chain('0'..='9').chain(if url { ['-', '_'] } else { ['+', '/'] }).collect();
        let mut s = String::new();
        for c in v.chunks(3) {
            let w = c.iter().chain([0, 0].iter()).take(3).fold(0usize, |w, b| w << 8 | *b as usize);
            for i in 0..=c.len() {
                s.push(abc[w >> (18 - 6 * i) & 63]);
            }
            for _ in c.len()..3 * usize::from(pad) {
                s.push('=');
            }
        }
        s
    };
    let mut v: Vec<Vec<u8>> = vec![];
    for s in [&hex, &up, &b64(p, true, false), &b64(p, false, false), &b64(p, true, true), &b64(p, false, true)] {
        for s in [s.clone(), format!("{s}\n"), format!("0x{s}"), format!("\"{s}\""), format!("{s}\0")] {
            v.push(s.into_bytes());
        }
    }
    v.push(p.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(":").into_bytes());
    v.push(BigUint::from_bytes_be(p).to_string().into_bytes());
    v.push(p.iter().rev().copied().collect());
    v.push(p.iter().map(|b| !b).collect());
    for n in [2, 4, 8, p.len() / 2] {
        if n > 0 {
            v.push(p.chunks(n).flat_map(|c| c.iter().rev().copied()).collect());
            v.push(p.chunks(n).rev().flatten().copied().collect());
            v.push([&p[n.min(p.len())..], &p[..n.min(p.len())]].concat());
        }
    }
    for i in 0..p.len() {
        // what sums, products and folds of all bytes forgive
        for j in [i + 1, i + p.len() / 2] {
            if j < p.len() {
                let mut w = p.to_vec();
                w.swap(i, j);
                v.push(w);
                let mut w = p.to_vec();
                w[i] ^= 0x11;
                w[j] ^= 0x11;
                v.push(w);
                let mut w = p.to_vec();
                w[i] = w[i].wrapping_add(1);
                w[j] = w[j].wrapping_sub(1);
                v.push(w);
            }
        }
    }
    for n in [1, 2, 4, 8, 32, 64] {
        v.push([&vec![0; n][..], p].concat());
        v.push([p, &vec![0; n][..]].concat());
        v.push([p, &vec![b' '; n][..]].concat());
    }
    // with its length before it
    let l = p.len();
    v.push([&[l as u8][..], p].concat());
    v.push([&(l as u16).to_be_bytes()[..], p].concat());
    v.push([&(l as u32).to_be_bytes()[..], p].concat());
    v.push([&(l as u32).to_le_bytes()[..], p].concat());
    v.push([&(l as u64).to_le_bytes()[..], p].concat());
    v.push([&[4, l as u8][..], p].concat());
    // as a number
    v.push(BigUint::from_bytes_be(p).to_bytes_be());
    v.retain(|w| w != p);
    v
}

/// R03: arbitrary bytes everywhere
fn fuzz(a: &Args, rep: &mut Report) {
    let seed = a.seed();
    let r = parallel(a.num("fuzz", 20_000), |i, rep| {
        let mut r = Prng::new(&[seed, i as u64, 41]);
        let grp = match r.below(40) {
            0 => builtin(1024),
            1 => SrpGroup { n: Int::from(23u8), g: Int::from(5u8) },
            2..=4 => SrpGroup { n: Int::from(719u16), g: Int::from(11u8) },
            k => custom(k),
        };
        let n = &grp.n;
        let nl = be(n).len();
        let any = |r: &mut Prng| {
            let l = match r.below(4) {
                0 => r.below(4),
                1 => nl,
                2 => r.below(2 * nl),
                _ => r.below(100),
            };
            let mut v = r.bytes(l);
            if r.chance(1, 5) && l > 0 {
                let z = r.below(l + 1);
                v[..z].iter_mut().for_each(|b| *b = 0);
            }
            if r.chance(1, 6) {
                v = be(&(n * r.below(70_000)));
            }
            if r.chance(1, 12) {
                v = be(&(n * Int::from_bytes_be(&v)));
            }
            if r.chance(1, 12) {
                v = be(&(n * Int::from_bytes_be(&v) + 1u8));
            }
            if r.chance(1, 12) {
                v = be(&(n * Int::from(r.u64()) - 1u8));
            }
            if r.chance(1, 6) {
                let z = r.below(30);
                let mut w = vec![0; z];
                w.extend(v);
                v = w;
            }
            v
        };
        let (x, y, v, pu) = (any(&mut r), any(&mut r), any(&mut r), any(&mut r));
        let (l1, l2, l3) = (r.below(40), r.below(40), r.below(40));
        let (u, p, s) = (r.bytes(l1), r.bytes(l2), r.bytes(l3));
        let z = zero(&pu, &grp);
        let c = SrpClient::<sha2::Sha256>::new(&grp);
        let srv = SrpServer::<sha2::Sha256>::new(&grp);
        let one = status(&guard(|| srv.process_reply(&x, &v, &pu)));
        let two = status(&guard(|| c.process_reply(&y, &u, &p, &s, &pu)));
        rep.add("fuzzed_replies", 2);
        rep.count(if z { "fuzzed_zero" } else { "fuzzed_nonzero" });
        let (w1, w2) = if z { ("IllegalParameter a_pub", "IllegalParameter b_pub") } else { ("Ok", "Ok") };
        if one != w1 || two != w2 {
            rep.finding(obj! {"what" => vec![format!("N={n:x}: public value {} is answered {one} by the server (b={} v={}) and {two} by the client (a={} user={} password={} salt={})",
                hexs(&pu), hexs(&x), hexs(&v), hexs(&y), hex(&u), hex(&p), hex(&s))]});
        }
        for (what, ok) in [
            ("client compute_public_ephemeral", guard(|| c.compute_public_ephemeral(&x)).is_some()),
            ("server compute_public_ephemeral", guard(|| srv.compute_public_ephemeral(&x, &v)).is_some()),
            ("compute_verifier", guard(|| c.compute_verifier(&u, &p, &s)).is_some()),
        ] {
            if !ok {
                rep.finding(obj! {"what" => vec![format!("{what} panicked with {} {}", hexs(&x), hexs(&v))]});
            }
        }
    });
    rep.merge(r);
}
