//! Replays behaviours of spec/Spake2*.tla into the spake2 crate.

use crate::json::{tlc_lines, J};
use crate::obj;
use crate::prng::Prng;
use crate::report::{hex, hexs, Report};
use crate::strings::{profile, sweeps, Conc, Profile};
use crate::tape::{Segment, Tape};
use crate::term::{Terms, T};
use crate::util::{guard, parallel, Args};
use curve25519_dalek::constants::{ED25519_BASEPOINT_POINT, EIGHT_TORSION};
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity as _;
use rand_core::{CryptoRng, RngCore};
use sha2::{Digest, Sha256};
use spake2::{Ed25519Group, Group, Identity, Password, Spake2};
use std::cell::RefCell;
use std::collections::HashMap;

// ---------------------------------------------------------------- behaviours

#[derive(Clone)]
pub enum Step {
    Start { s: usize, role: String, pw: Vec<String>, ids: Vec<Vec<String>>, x: Option<i64>, out: T, debug: T },
    Finish { s: usize, src: usize, how: (String, String), status: String, key: T },
}

pub struct Beh {
    pub steps: Vec<Step>,
    pub names: Vec<String>,
    /// pairs of sessions whose messages differ by the given multiple of the generator
    pub blinds: Vec<(usize, usize, T)>,
    pub text: J,
    /// every string that occurs, by chunks
    pub strings: Vec<Vec<String>>,
}

pub fn read_behaviours(path: &str, terms: &mut Terms) -> Vec<Beh> {
    let mut out = Vec::new();
    for j in tlc_lines(path) {
        let mut names: Vec<String> = Vec::new();
        let mut idx = |n: &str| match names.iter().position(|x| x == n) {
            Some(i) => i,
            None => {
                names.push(n.to_string());
                names.len() - 1
            }
        };
        let mut steps = Vec::new();
        let mut strings: Vec<Vec<String>> = Vec::new();
        let mut blinds = Vec::new();
        for e in j.arr() {
            match e.get("op").s() {
                "start" => {
                    let pw = e.get("pw").strs();
                    let ids: Vec<Vec<String>> = e.get("ids").arr().iter().map(|x| x.strs()).collect();
                    for s in ids.iter().chain([&pw]) {
                        if !strings.contains(s) {
                            strings.push(s.clone());
                        }
                    }
                    steps.push(Step::Start {
                        s: idx(e.get("s").s()),
                        role: e.get("role").s().into(),
                        pw,
                        ids,
                        x: if e.get("x").is_null() { None } else { Some(e.get("x").n()) },
                        out: terms.read(e.get("out")),
                        debug: terms.read(e.get("debug")),
                    });
                }
                "finish" => {
                    let how = e.get("how").strs();
                    steps.push(Step::Finish {
                        s: idx(e.get("s").s()),
                        src: idx(e.get("src").s()),
                        how: (how[0].clone(), how[1].clone()),
                        status: e.get("status").s().into(),
                        key: terms.read(e.get("key")),
                    });
                }
                "blind" => {
                    let p = (idx(e.get("s").s()), idx(e.get("t").s()));
                    blinds.push((p.0, p.1, terms.read(e.get("diff"))));
                }
                o => panic!("op {o}"),
            }
        }
        out.push(Beh { steps, names, blinds, text: slim(&j), strings });
    }
    out
}

/// the behaviour without the terms, for reports
fn slim(j: &J) -> J {
    J::Arr(
        j.arr()
            .iter()
            .filter(|e| e.get("op").s() != "blind")
            .map(|e| match e {
                J::Obj(v) => J::Obj(v.iter().filter(|(k, _)| !matches!(k.as_str(), "out" | "key" | "debug" | "diff")).cloned().collect()),
                x => x.clone(),
            })
            .collect(),
    )
}

// ---------------------------------------------------------------- toy group

/// How the toy group writes its elements: `fill` everywhere but at `pos`.
#[derive(Clone)]
pub struct ToyEnc {
    pub q: i64,
    pub pos: usize,
    pub fill: Vec<u8>,
    /// byte for each element
    pub byte: Vec<u8>,
}

thread_local! {
    static TOY: RefCell<ToyEnc> = const { RefCell::new(ToyEnc { q: 5, pos: 0, fill: Vec::new(), byte: Vec::new() }) };
}

pub struct ToyGroup;

fn toyq() -> i64 {
    TOY.with(|t| t.borrow().q)
}

impl Group for ToyGroup {
    type Scalar = i64;
    type Element = i64;
    type TranscriptHash = Sha256;
    fn name() -> &'static str {
        "Toy"
    }
    fn const_m() -> i64 {
        2 % toyq()
    }
    fn const_n() -> i64 {
        3 % toyq()
    }
    fn const_s() -> i64 {
        4 % toyq()
    }
    fn hash_to_scalar(s: &[u8]) -> i64 {
        s.iter().map(|b| *b as i64).sum::<i64>() % toyq()
    }
    fn random_scalar<R: RngCore + CryptoRng>(r: &mut R) -> i64 {
        let mut b = [0];
        r.fill_bytes(&mut b);
        b[0] as i64 % toyq()
    }
    fn scalar_neg(s: &i64) -> i64 {
        (toyq() - s) % toyq()
    }
    fn element_to_bytes(e: &i64) -> Vec<u8> {
        TOY.with(|t| {
            let t = t.borrow();
            let mut b = t.fill.clone();
            b[t.pos] = t.byte[*e as usize];
            b
        })
    }
    fn bytes_to_element(b: &[u8]) -> Option<i64> {
        (0..toyq()).find(|n| Self::element_to_bytes(n) == b)
    }
    fn element_length() -> usize {
        TOY.with(|t| t.borrow().fill.len())
    }
    fn basepoint_mult(s: &i64) -> i64 {
        *s % toyq()
    }
    fn scalarmult(e: &i64, s: &i64) -> i64 {
        e * s % toyq()
    }
    fn add(a: &i64, b: &i64) -> i64 {
        (a + b) % toyq()
    }
}

// ---------------------------------------------------------------- evaluation of terms

fn point(b: [u8; 32]) -> EdwardsPoint {
    CompressedEdwardsY(b).decompress().unwrap()
}

fn unhex(s: &str) -> [u8; 32] {
    let mut o = [0; 32];
    for i in 0..32 {
        o[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    o
}

/// M, N, S as published with python-spake2
pub fn base(k: &str) -> Option<EdwardsPoint> {
    Some(match k {
        "B" => ED25519_BASEPOINT_POINT,
        "M" => point(unhex("15cfd18e385952982b6a8f8c7854963b58e34388c8e6dae891db756481a02312")),
        "N" => point(unhex("f04f2e7eb734b2a8f8b472eaf9c3c632576ac64aea650b496a8a20ff00e583c3")),
        "S" => point(unhex("6f00dae87c1be1a73b5922ef431cd8f57879569c222d22b1cd71e8546ab8e6f1")),
        _ => return None,
    })
}

/// HKDF-SHA256 written out (RFC 5869), independent of the hkdf crate
fn hkdf_pw(pw: &[u8]) -> Scalar {
    fn hmac(key: &[u8], msg: &[&[u8]]) -> [u8; 32] {
        let mut k = [0u8; 64];
        if key.len() > 64 {
            k[..32].copy_from_slice(&Sha256::digest(key));
        } else {
            k[..key.len()].copy_from_slice(key);
        }
        let mut h = Sha256::new();
        h.update(k.map(|b| b ^ 0x36));
        for m in msg {
            h.update(m);
        }
        let inner = h.finalize();
        let mut h = Sha256::new();
        h.update(k.map(|b| b ^ 0x5c));
        h.update(inner);
        h.finalize().into()
    }
    let prk = hmac(&[], &[pw]);
    let t1 = hmac(&prk, &[b"SPAKE2 pw", &[1]]);
    let t2 = hmac(&prk, &[&t1, b"SPAKE2 pw", &[2]]);
    // 48 bytes, big endian, modulo the group order
    let mut okm = Vec::new();
    okm.extend_from_slice(&t1);
    okm.extend_from_slice(&t2[..16]);
    okm.reverse();
    let mut w = [0u8; 64];
    w[..48].copy_from_slice(&okm);
    Scalar::from_bytes_mod_order_wide(&w)
}

pub struct Env<'a> {
    pub conc: &'a mut Conc,
    pub scalars: HashMap<u32, Scalar>,
    pub points: HashMap<u32, EdwardsPoint>,
    pub bytes: HashMap<u32, Vec<u8>>,
    pub memo: HashMap<u32, Vec<u8>>,
}

impl Env<'_> {
    fn scalar_atom(&mut self, t: &T) -> Option<Scalar> {
        if let Some(s) = self.scalars.get(&t.id) {
            return Some(*s);
        }
        if t.k == "hash" && t.v[0] == "pwscalar" {
            let s = hkdf_pw(&self.eval(&t.a[0])?);
            self.scalars.insert(t.id, s);
            return Some(s);
        }
        None
    }
    fn mono(&mut self, t: &T) -> Option<Scalar> {
        let mut r = Scalar::ONE;
        for (a, n) in &t.e {
            let s = self.scalar_atom(a)?;
            let s = if *n < 0 { s.invert() } else { s };
            for _ in 0..n.unsigned_abs() {
                r *= s;
            }
        }
        Some(r)
    }
    fn elt(&mut self, t: &T) -> Option<EdwardsPoint> {
        let mut r = EdwardsPoint::identity();
        for (l, n) in &t.e {
            let b = match self.points.get(&l.a[1].id) {
                Some(p) => *p,
                None => base(&l.a[1].k)?,
            };
            let m = self.mono(&l.a[0])?;
            let p = b * m;
            for _ in 0..n.unsigned_abs() {
                if *n > 0 {
                    r += p;
                } else {
                    r -= p;
                }
            }
        }
        Some(r)
    }
    pub fn eval(&mut self, t: &T) -> Option<Vec<u8>> {
        if let Some(b) = self.bytes.get(&t.id) {
            return Some(b.clone());
        }
        if let Some(b) = self.memo.get(&t.id) {
            return Some(b.clone());
        }
        let r = match t.k.as_str() {
            "str" => self.conc.string(&t.v)?,
            "enc" => self.elt(&t.a[0])?.compress().to_bytes().to_vec(),
            "toy" => ToyGroup::element_to_bytes(&t.v[0].parse().unwrap()),
            "msg" => {
                let mut v = vec![tag_byte(&t.a[0].k)];
                v.extend(self.eval(&t.a[1])?);
                v
            }
            "sorted" => {
                let mut v = Vec::new();
                for (x, n) in &t.e {
                    for _ in 0..*n {
                        v.push(self.eval(x)?);
                    }
                }
                v.sort();
                v.concat()
            }
            "hash" if t.v[0] == "sha256" => {
                let mut h = Sha256::new();
                for x in &t.a {
                    h.update(self.eval(x)?);
                }
                h.finalize().to_vec()
            }
            _ => return None,
        };
        self.memo.insert(t.id, r.clone());
        Some(r)
    }
}

fn tag_byte(n: &str) -> u8 {
    match n {
        "A" | "B" | "S" | "a" | "b" | "s" | "C" | "T" => n.as_bytes()[0],
        "nul" => 0,
        "ff" => 0xff,
        "hiA" => 0xc1,
        "hiB" => 0xc2,
        "hiS" => 0xd3,
        _ => {
            let (t, m) = n.split_once('~').unwrap();
            tag_byte(t) ^ (1 << m.parse::<u8>().unwrap())
        }
    }
}

fn decodes(b: &[u8]) -> bool {
    b.len() == 32 && CompressedEdwardsY(b.try_into().unwrap()).decompress().is_some()
}

/// the delivered bytes; None if this operation cannot be done here.  The third part is an element
/// that stands for a name of the specification.
fn tamper(m: &[u8], how: &(String, String), r: &mut Prng) -> Option<(Vec<u8>, Option<(&'static str, EdwardsPoint)>)> {
    let with = |body: &[u8]| {
        let mut v = vec![m[0]];
        v.extend_from_slice(body);
        v
    };
    let elt = |e: EdwardsPoint| with(&e.compress().to_bytes());
    let src = || CompressedEdwardsY(m[1..].try_into().ok()?).decompress();
    let v = match (how.0.as_str(), how.1.as_str()) {
        ("none", _) => m.to_vec(),
        ("len", "empty") => vec![],
        ("len", "one") => m[..1].to_vec(),
        ("len", "trunc") => m[..m.len() - 1].to_vec(),
        ("len", "body") => m[1..].to_vec(),
        ("len", "ext") => {
            let mut v = m.to_vec();
            v.push(1 + r.below(255) as u8);
            v
        }
        ("len", "extnul") => {
            let mut v = m.to_vec();
            v.push(0);
            v
        }
        ("len", "dup") => [m, m].concat(),
        ("len", "long") => {
            let mut v = m.to_vec();
            let n = 2 + r.below(300);
            v.extend(r.bytes(n));
            v
        }
        ("tag", o) => {
            let mut v = m.to_vec();
            v[0] = match o.strip_prefix("same~") {
                Some(b) => m[0] ^ (1 << b.parse::<u8>().unwrap()),
                None => tag_byte(o),
            };
            v
        }
        ("body", "junk") => loop {
            let b = r.bytes(32);
            if !decodes(&b) {
                break with(&b);
            }
        },
        ("body", "rand") => loop {
            let b = r.bytes(32);
            if decodes(&b) {
                return Some((with(&b), Some(("rand", point(b.try_into().unwrap())))));
            }
        },
        ("body", o @ ("flipund" | "flipdec")) => {
            let want = o == "flipdec";
            let mut tries = 0;
            loop {
                let mut v = m.to_vec();
                for _ in 0..1 + r.below(2) {
                    let i = 1 + r.below(v.len() - 1);
                    v[i] ^= 1 << r.below(8);
                }
                if v != m && decodes(&v[1..]) == want {
                    if want {
                        let p = point(v[1..].try_into().unwrap());
                        return Some((v, Some(("flipdec", p))));
                    }
                    break v;
                }
                tries += 1;
                if tries > 500 {
                    return None;
                }
            }
        }
        ("body", "neg") => elt(-src()?),
        ("body", "plusB") => elt(src()? + ED25519_BASEPOINT_POINT),
        ("body", "plusU") => elt(
            src()? + base(match m[0] {
                b'A' => "M",
                b'B' => "N",
                _ => "S",
            })?,
        ),
        ("body", "id") => elt(EdwardsPoint::identity()),
        ("body", o @ ("cB" | "cM" | "cN" | "cS")) => elt(base(&o[1..])?),
        ("body", o @ ("t8" | "pt8")) => {
            let t = EIGHT_TORSION[1 + r.below(7)];
            let e = if o == "t8" { t } else { src()? + t };
            return Some((elt(e), Some(("T8", t))));
        }
        ("body", "altid") => {
            let mut b = [0xff; 32];
            b[0] = 0xee;
            b[31] = 0x7f;
            with(&b)
        }
        ("body", "negid") => {
            let mut b = [0; 32];
            b[0] = 1;
            b[31] = 0x80;
            with(&b)
        }
        ("elt", n) => {
            let mut v = vec![m[0]];
            v.extend(ToyGroup::element_to_bytes(&n.parse().unwrap()));
            v
        }
        _ => panic!("tampering {how:?}"),
    };
    Some((v, None))
}

// ---------------------------------------------------------------- replay

pub fn start<G: Group>(role: &str, pw: &[u8], ids: &[Vec<u8>], rng: Tape, os: bool) -> Option<(Spake2<G>, Vec<u8>)> {
    let pw = Password::new(pw);
    if os {
        return crate::os::with_tape(&rng, || {
            guard(|| match role {
                "A" => Spake2::<G>::start_a(&pw, &Identity::new(&ids[0]), &Identity::new(&ids[1])),
                "B" => Spake2::<G>::start_b(&pw, &Identity::new(&ids[0]), &Identity::new(&ids[1])),
                _ => Spake2::<G>::start_symmetric(&pw, &Identity::new(&ids[0])),
            })
        });
    }
    guard(|| match role {
        "A" => Spake2::<G>::start_a_with_rng(&pw, &Identity::new(&ids[0]), &Identity::new(&ids[1]), rng),
        "B" => Spake2::<G>::start_b_with_rng(&pw, &Identity::new(&ids[0]), &Identity::new(&ids[1]), rng),
        _ => Spake2::<G>::start_symmetric_with_rng(&pw, &Identity::new(&ids[0]), rng),
    })
}

pub fn finish<G: Group>(s: Spake2<G>, m: &[u8]) -> (String, Vec<u8>) {
    match guard(|| s.finish(m)) {
        None => ("Panic".into(), vec![]),
        Some(Ok(k)) => ("Ok".into(), k),
        Some(Err(e)) => (format!("{e:?}"), vec![]),
    }
}

/// what one finish step did
pub struct Fin<'a> {
    pub step: usize,
    pub expect: &'a str,
    pub term: &'a T,
    pub status: String,
    pub key: Vec<u8>,
    pub msg: Vec<u8>,
}

pub struct Run<'a> {
    pub fins: Vec<Fin<'a>>,
    /// per session: message, RNG draws, term of the message
    pub starts: Vec<(Vec<u8>, Segment, &'a T)>,
    /// debug renderings, with the term of what they may depend on
    pub debugs: Vec<(String, String, &'a T)>,
    pub named: Vec<(String, String, EdwardsPoint)>,
    pub panicked_start: bool,
}

pub fn replay<'a, G: Group>(b: &'a Beh, conc: &mut Conc, os: bool, tapes: impl Fn(usize, Option<i64>) -> Tape) -> Option<Run<'a>> {
    // different strings must have got different bytes
    let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
    for (i, s) in b.strings.iter().enumerate() {
        let v = conc.string(s)?;
        if seen.insert(v, i).is_some() {
            return None;
        }
    }
    let mut sess: Vec<Option<Spake2<G>>> = Vec::new();
    let mut run = Run { fins: vec![], starts: vec![], debugs: vec![], named: vec![], panicked_start: false };
    let mut r = Prng::new(&[conc_seed(conc), 23]);
    for (n, st) in b.steps.iter().enumerate() {
        match st {
            Step::Start { s, role, pw, ids, x, out, debug } => {
                assert!(*s == sess.len());
                let tape = tapes(*s, *x);
                let ids: Vec<Vec<u8>> = ids.iter().map(|i| conc.string(i).unwrap()).collect();
                let pw = conc.string(pw).unwrap();
                match start::<G>(role, &pw, &ids, tape.clone(), os) {
                    None => {
                        run.panicked_start = true;
                        return Some(run);
                    }
                    Some((ss, m)) => {
                        let d = guard(|| (format!("{ss:?}"), format!("{ss:#?}"))).unwrap_or_else(|| ("panic".into(), "panic".into()));
                        run.debugs.push((d.0, d.1, debug));
                        sess.push(Some(ss));
                        run.starts.push((m, tape.since(0), out));
                    }
                }
            }
            Step::Finish { s, src, how, status, key } => {
                let m = &run.starts[*src].0;
                if m.is_empty() {
                    return None;
                }
                let (m, named) = tamper(m, how, &mut r)?;
                if let Some((k, p)) = named {
                    run.named.push((k.to_string(), b.names[*s].clone(), p));
                }
                let (st, k) = finish(sess[*s].take().unwrap(), &m);
                run.fins.push(Fin { step: n, expect: status, term: key, status: st, key: k, msg: m });
            }
        }
    }
    Some(run)
}

fn conc_seed(c: &Conc) -> u64 {
    c.seed()
}

/// Judges a run by one property.
fn judge(prop: &str, b: &Beh, run: &Run, conc: &mut Conc, terms: &Names, rep: &mut Report, toy: bool) -> Vec<String> {
    let mut bad = Vec::new();
    if run.panicked_start {
        return vec!["starting a session panicked".into()];
    }
    let f = &run.fins;
    match prop {
        "S01" => {
            for i in 0..f.len() {
                for j in i + 1..f.len() {
                    if !f[i].term.is_none() && f[i].term.id == f[j].term.id {
                        rep.count("agreeing_pairs");
                        if f[i].status != "Ok" || f[j].status != "Ok" {
                            bad.push(format!("matching sessions ended {} / {}", f[i].status, f[j].status));
                        } else if f[i].key != f[j].key {
                            bad.push(format!("matching sessions got different keys {} / {}", hex(&f[i].key), hex(&f[j].key)));
                        } else if f[i].key.len() != 32 {
                            bad.push(format!("key of {} bytes", f[i].key.len()));
                        }
                    }
                }
            }
        }
        "S02" => {
            for i in 0..f.len() {
                for j in i + 1..f.len() {
                    if !f[i].term.is_none() && !f[j].term.is_none() && f[i].term.id != f[j].term.id
                        && f[i].status == "Ok" && f[j].status == "Ok"
                    {
                        rep.count("differing_pairs");
                        if f[i].key == f[j].key {
                            bad.push(format!(
                                "steps {} and {} must not share a key but both got {}",
                                f[i].step, f[j].step, hex(&f[i].key)
                            ));
                        }
                    }
                }
            }
        }
        "S03" => {
            for x in f {
                rep.count("finishes");
                rep.count(&format!("expected_{}", x.expect));
                if x.status != x.expect {
                    bad.push(format!("step {}: finish({}) returned {}, expected {}", x.step, hexs(&x.msg), x.status, x.expect));
                }
            }
        }
        "S04" => {
            let mut env = Env { conc, scalars: HashMap::new(), points: HashMap::new(), bytes: HashMap::new(), memo: HashMap::new() };
            for (k, s, p) in &run.named {
                for t in &terms.leaves {
                    if &t.k == k && &t.v[0] == s {
                        env.points.insert(t.id, *p);
                    }
                }
            }
            for (m, seg, out) in &run.starts {
                let want = if toy {
                    env.eval(out)
                } else {
                    explain(out, m, seg, &mut env)
                };
                rep.count("messages");
                match want {
                    Some(w) if w == *m => {}
                    Some(w) => bad.push(format!("message {} instead of {}", hexs(m), hexs(&w))),
                    None => bad.push(format!("message {} is not the role byte and x*B + pw*U for any x drawn", hexs(m))),
                }
            }
            if bad.is_empty() {
                for x in f {
                    if x.status == "Ok" && !x.term.is_none() {
                        // encodings that are not the canonical ones enter the transcript as sent
                        for t in &terms.alts {
                            if x.msg[1..].iter().any(|_| true) && alt_bytes(t).as_deref() == Some(&x.msg[1..]) {
                                env.bytes.insert(t.id, x.msg[1..].to_vec());
                            }
                        }
                        rep.count("keys");
                        match env.eval(x.term) {
                            Some(w) if w == x.key => {}
                            Some(w) => bad.push(format!("step {}: key {} instead of {}", x.step, hexs(&x.key), hex(&w))),
                            None => panic!("no value for {}", x.term.show()),
                        }
                    }
                }
            }
        }
        "S05" => {
            // messages of one role and password: their difference is that of full-range scalars
            // made from what each session itself drew
            for (i, j, diff) in &b.blinds {
                if toy || i > j {
                    continue;
                }
                rep.count("blinded_pairs");
                let ((m1, g1, o1), (m2, g2, o2)) = (&run.starts[*i], &run.starts[*j]);
                if m1 == m2 {
                    bad.push(format!("sessions {i} and {j} sent the same message {}", hexs(m1)));
                    continue;
                }
                let (Some(p1), Some(p2)) = (decode_msg(m1), decode_msg(m2)) else {
                    rep.count("undecodable_messages");
                    continue;
                };
                let want = (p1 - p2).compress().to_bytes();
                let (a1, a2) = (rnd_atom(o1).unwrap(), rnd_atom(o2).unwrap());
                let (c1, c2) = (g1.scalars(), g2.scalars());
                let ok = c1.iter().zip(&c2).any(|(x1, x2)| {
                    let mut env = Env { conc, scalars: HashMap::new(), points: HashMap::new(), bytes: HashMap::new(), memo: HashMap::new() };
                    env.scalars.insert(a1.id, x1.0);
                    env.scalars.insert(a2.id, x2.0);
                    env.eval(diff).as_deref() == Some(&want[..])
                });
                if !ok {
                    bad.push(format!(
                        "messages {} and {} do not differ by full-range scalars drawn from the generator ({} and {} bytes drawn)",
                        hexs(m1), hexs(m2), g1.bytes.len(), g2.bytes.len()
                    ));
                }
            }
        }
        "S06" => {
            for i in 0..run.debugs.len() {
                let (d, d2, t) = &run.debugs[i];
                rep.count("renderings");
                for (e, e2, u) in &run.debugs[..i] {
                    if u.id == t.id {
                        rep.count("same_rendering_pairs");
                        if d != e || d2 != e2 {
                            bad.push(format!("the rendering depends on more than group, role and identities: {d} / {e}"));
                        }
                    }
                }
                for s in &t.a[1..] {
                    let v = conc.string(&s.v).unwrap();
                    let want = match std::str::from_utf8(&v) {
                        Ok(s) => s.to_string(),
                        Err(_) => hex(&v),
                    };
                    if !d.contains(&want) && !d.contains(&want.to_uppercase()) {
                        bad.push(format!("identity {want} does not appear in {d}"));
                    }
                }
                if !d.contains(if toy { "Toy" } else { "Ed25519" }) {
                    bad.push(format!("no group name in {d}"));
                }
            }
        }
        _ => panic!("property {prop}"),
    }
    bad
}

fn decode_msg(m: &[u8]) -> Option<EdwardsPoint> {
    CompressedEdwardsY(m.get(1..33)?.try_into().ok()?).decompress()
}

fn alt_bytes(t: &T) -> Option<Vec<u8>> {
    let mut b;
    match t.a[1].k.as_str() {
        "y1p" => {
            b = vec![0xff; 32];
            b[0] = 0xee;
            b[31] = 0x7f;
        }
        "neg0" => {
            b = vec![0; 32];
            b[0] = 1;
            b[31] = 0x80;
        }
        _ => return None,
    }
    Some(b)
}

/// finds the ephemeral scalar of a message among the bytes drawn, and evaluates the message
fn explain(out: &T, m: &[u8], seg: &Segment, env: &mut Env) -> Option<Vec<u8>> {
    let x = rnd_atom(out)?;
    if env.scalars.contains_key(&x.id) {
        return env.eval(out);
    }
    for (s, _, _) in seg.scalars() {
        env.scalars.insert(x.id, s);
        env.memo.remove(&out.id);
        for t in &out.a {
            env.memo.remove(&t.id);
        }
        if env.eval(out).as_deref() == Some(m) {
            return Some(m.to_vec());
        }
    }
    env.scalars.remove(&x.id);
    None
}

fn rnd_atom(t: &T) -> Option<T> {
    if t.k == "rnd" {
        return Some(t.clone());
    }
    t.a.iter().chain(t.e.iter().map(|x| &x.0)).find_map(rnd_atom)
}

pub struct Names {
    /// leaves that name elements the harness picks
    leaves: Vec<T>,
    alts: Vec<T>,
}

fn names(terms: &Terms) -> Names {
    Names {
        leaves: terms.all().filter(|t| matches!(t.k.as_str(), "flipdec" | "rand" | "T8")).cloned().collect(),
        alts: terms.all().filter(|t| t.k == "alt").cloned().collect(),
    }
}

fn forced_tape(kind: usize, r: &mut Prng) -> Vec<u8> {
    // extreme outputs of the generator
    let l = hexl("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010");
    match kind {
        0 => vec![0; 64],
        1 => vec![0xff; 64],
        2 => {
            let mut v = vec![0; 64];
            v[0] = 1;
            v
        }
        3 => {
            let mut v = l.clone();
            v.resize(64, 0);
            v[0] -= 1;
            v
        }
        4 => {
            let mut v = l.clone();
            v.resize(64, 0);
            v[0] += 1;
            v
        }
        5 => {
            let mut v = vec![0; 64];
            v[r.below(64)] = 1 << r.below(8);
            v
        }
        _ => vec![],
    }
}

fn hexl(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn describe(b: &Beh, p: &Profile, conc: &mut Conc) -> J {
    let strs: Vec<J> = b
        .strings
        .iter()
        .map(|s| J::Str(format!("{}={}", s.join("+"), conc.string(s).map(|v| hexs(&v)).unwrap_or_default())))
        .collect();
    obj! {"behaviour" => b.text.clone(), "profile" => format!("{p:?}"), "strings" => strs}
}

/// S01..S04: behaviours on Ed25519 and on the toy group
/// two sessions must hold the same key
fn agree(b: &Beh) -> bool {
    let keys: Vec<(usize, &T)> = b
        .steps
        .iter()
        .filter_map(|s| match s {
            Step::Finish { s, key, status, .. } if status == "Ok" && !key.is_none() => Some((*s, key)),
            _ => None,
        })
        .collect();
    keys.iter().any(|x| keys.iter().any(|y| x.0 != y.0 && x.1.id == y.1.id))
}

pub fn conformance(a: &Args, rep: &mut Report) {
    let prop = a.prop.as_str();
    let mut terms = Terms::default();
    let behs = read_behaviours(a.opt("beh").unwrap(), &mut terms);
    let nm = names(&terms);
    let profiles = a.num("profiles", 40);
    let seed = a.seed();
    rep.add("behaviours", behs.len() as u64);
    let strs: Vec<&Vec<Vec<String>>> = behs.iter().map(|b| &b.strings).collect();
    let swept = sweeps(seed, &strs, a.num("sweep", 8), |i| prop != "S01" || agree(&behs[i]));
    let plain = behs.len() * profiles;
    let r = parallel(plain + swept.len(), |i, rep| {
        let (bi, pi) = if i < plain { (i % behs.len(), i / behs.len()) } else { (swept[i - plain].0, i) };
        let b = &behs[bi];
        let mut p = profile(seed.wrapping_add(bi as u64 * 7919), pi + bi);
        if i >= plain {
            p.sweep = swept[i - plain].1.clone();
            rep.count("swept");
        }
        let mut conc = Conc::new(p.clone());
        let mut fr = Prng::new(&[p.seed, 3]);
        let forced = if pi % 5 == 4 && prop != "S05" { Some((fr.below(6), fr.below(b.names.len()))) } else { None };
        let os = pi % 5 == 3;
        let run = replay::<Ed25519Group>(b, &mut conc, os, |s, _| {
            let parts = [seed, p.seed, bi as u64, s as u64, 99];
            match forced {
                // one session gets an extreme draw, the other ones random bytes
                Some((k, who)) if who == s => Tape::forced(&parts, &forced_tape(k, &mut fr.clone())),
                _ => Tape::new(&parts),
            }
        });
        let Some(run) = run else {
            rep.count("skipped");
            return;
        };
        rep.count("replayed");
        let bad = judge(prop, b, &run, &mut conc, &nm, rep, false);
        if !bad.is_empty() {
            let d = describe(b, &p, &mut conc);
            rep.finding(obj! {"what" => bad, "case" => d});
        } else if pi == 0 && bi % 97 == 5 {
            let d = describe(b, &p, &mut conc);
            rep.sample(d);
        }
        if prop == "S05" {
            for (n, (m, _, _)) in run.starts.iter().enumerate() {
                let label = format!("behaviour {bi} profile {pi} session {n}");
                if let Some(old) = rep.values.insert(m.clone(), label.clone()) {
                    rep.finding(obj! {"what" => vec![format!("message {} sent by unrelated sessions: {old}; {label}", hex(m))]});
                }
            }
        }
        if prop == "S02" && forced.is_none() {
            let mut done: Vec<u32> = vec![];
            for f in &run.fins {
                if f.status == "Ok" && !f.term.is_none() && !done.contains(&f.term.id) {
                    done.push(f.term.id);
                    let label = format!("behaviour {bi} profile {pi} step {}", f.step);
                    if let Some(old) = rep.values.insert(f.key.clone(), label.clone()) {
                        rep.finding(obj! {"what" => vec![format!("key {} in unrelated sessions: {old}; {label}", hex(&f.key))]});
                    }
                }
            }
        }
    });
    rep.merge(r);
    if let Some(f) = a.opt("life") {
        crate::life::conformance(a, f, rep);
    }
    if let Some(f) = a.opt("toy") {
        toy(a, f, &[prop], &[32], rep);
    }
    if let Some(f) = a.opt("table") {
        table(f, a, rep);
    }
}

/// exchanges in a small group, whose elements are written in as many bytes as given
fn toy(a: &Args, f: &str, props: &[&str], lens: &[usize], rep: &mut Report) {
    let seed = a.seed();
    let mut terms = Terms::default();
    let behs = read_behaviours(f, &mut terms);
    let nm = names(&terms);
    let encs = a.num("toyencs", 33);
    let q0 = a.num("toyq", 5);
    rep.add("toy_behaviours", behs.len() as u64);
    let r = parallel(behs.len() * encs, |i, rep| {
        let (bi, ei) = (i % behs.len(), i / behs.len());
        let b = &behs[bi];
        let mut r = Prng::new(&[seed, bi as u64, ei as u64, 5]);
        let q = q0;
        let mut byte: Vec<u8> = Vec::new();
        while byte.len() < q {
            let x = *r.pick(&[0u8, 1, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x41, 0x42, 0x53]);
            if !byte.contains(&x) {
                byte.push(x);
            }
        }
        let len = lens[ei % lens.len()];
        let mut fill = vec![0u8; len];
        match ei % 3 {
            0 => r.fill(&mut fill),
            1 => fill = vec![*r.pick(&[0, 0xff, 0x80]); len],
            _ => {}
        }
        let enc = ToyEnc { q: q as i64, pos: if len == 32 { ei % 32 } else { r.below(len) }, fill, byte };
        TOY.with(|t| *t.borrow_mut() = enc.clone());
        let p = profile(seed ^ bi as u64, ei);
        let mut conc = Conc::new(p.clone());
        for s in &b.strings {
            for c in s {
                if let Some(n) = c.strip_prefix('w').and_then(|x| x.split('_').next()).and_then(|x| x.parse::<usize>().ok()) {
                    // bytes with sum n modulo q
                    let len = 1 + r.below(40);
                    let mut v = r.bytes(len);
                    let sum: usize = v.iter().map(|x| *x as usize).sum();
                    let l = v.len();
                    let d = (n + q - sum % q) % q;
                    v[l - 1] = if v[l - 1] as usize + d > 255 { v[l - 1] - (q - d) as u8 } else { v[l - 1] + d as u8 };
                    conc.set(c, v);
                }
            }
        }
        let run = replay::<ToyGroup>(b, &mut conc, false, |s, x| Tape::forced(&[seed, s as u64, i as u64], &[x.unwrap() as u8]));
        let Some(run) = run else {
            rep.count("skipped");
            return;
        };
        rep.count("toy_replayed");
        if props[0] == "S05" && ei == 0 {
            // (role, password) -> scalar -> message
            for (n, st) in b.steps.iter().enumerate() {
                if let Step::Start { s, role, pw, x, .. } = st {
                    let _ = n;
                    let e = ToyGroup::bytes_to_element(&run.starts[*s].0[1..]);
                    rep.facts.insert(format!("{role} {} {} {e:?}", pw[0], x.unwrap()));
                }
            }
        }
        let bad: Vec<String> = props.iter().flat_map(|p| judge(p, b, &run, &mut conc, &nm, rep, true)).collect();
        if !bad.is_empty() {
            let d = describe(b, &p, &mut conc);
            rep.finding(obj! {"what" => bad, "toy" => format!("{len} bytes, position {} fill {} bytes {:?}", enc.pos, hex(&enc.fill), enc.byte), "case" => d});
        }
    });
    if props[0] == "S05" {
        // every password and role: a uniform scalar makes a uniform message
        let mut img: HashMap<String, (Vec<String>, Vec<String>)> = HashMap::new();
        for k in &r.facts {
            let p: Vec<&str> = k.split(' ').collect();
            let e = img.entry(format!("{} {}", p[0], p[1])).or_default();
            e.0.push(p[2].to_string());
            if !e.1.contains(&p[3].to_string()) {
                e.1.push(p[3].to_string());
            }
        }
        for (k, (x, m)) in img {
            rep.count("toy_distributions");
            if x.len() != q0 || m.len() != q0 || m.iter().any(|m| m == "None") {
                rep.finding(obj! {"what" => vec![format!("toy group, role and password {k}: {q0} scalars give the messages {m:?}")]});
            }
        }
    }
    rep.merge(r);
}

/// S08: the protocol in other groups
pub const LENGTHS: [usize; 17] = [1, 2, 3, 8, 16, 24, 31, 32, 33, 48, 56, 57, 64, 65, 132, 289, 1000];

pub fn generic(a: &Args, rep: &mut Report) {
    toy(a, a.opt("toy").unwrap(), &["S01", "S02", "S03", "S04", "S06"], &LENGTHS, rep);
    // strings of any length and first byte
    let rows = read_table(a.opt("table").unwrap());
    let r = parallel(a.num("fuzz", 40_000), |i, rep| {
        let mut r = Prng::new(&[a.seed(), i as u64, 78]);
        let len = LENGTHS[i % LENGTHS.len()];
        let fill = r.bytes(len);
        let pos = r.below(len);
        TOY.with(|t| *t.borrow_mut() = ToyEnc { q: 5, pos, fill, byte: vec![0, 1, 0x41, 0x80, 0xff] });
        let role = *r.pick(&["A", "B", "S"]);
        let (l1, l2) = (r.below(20), r.below(20));
        let ids = [r.bytes(l1), r.bytes(l2)];
        let pw = r.bytes(l2);
        let Some((s, own)) = start::<ToyGroup>(role, &pw, &ids, Tape::new(&[a.seed(), i as u64]), false) else {
            return rep.finding(obj! {"what" => vec![format!("starting a session panicked; elements of {len} bytes")]});
        };
        let mut m = match r.below(5) {
            0 => {
                let l = r.below(2 * len + 40);
                r.bytes(l)
            }
            1 => own.clone(),
            2 => [&[0][..], &ToyGroup::element_to_bytes(&(r.below(5) as i64))].concat(),
            3 => {
                let mut v = own.clone();
                if r.chance(1, 2) {
                    v.push(r.below(256) as u8);
                } else {
                    v.pop();
                }
                v
            }
            _ => {
                let mut v = own.clone();
                let k = r.below(v.len());
                v[k] ^= 1 << r.below(8);
                v
            }
        };
        if !m.is_empty() && r.chance(3, 4) {
            m[0] = *r.pick(b"AABBSSX");
        }
        let tag = match m.first() {
            Some(b'A') => "A",
            Some(b'B') => "B",
            Some(b'S') => "S",
            _ => "other",
        };
        let right = m.len() == len + 1;
        let key = (role.to_string(), right, tag.to_string(), right && m[1..] == own[1..], right && ToyGroup::bytes_to_element(&m[1..]).is_some());
        let want = rows.get(&key).cloned().unwrap_or_else(|| rows[&(key.0.clone(), key.1, key.2.clone(), false, false)].clone());
        let (got, _) = finish(s, &m);
        rep.count("fuzzed_finishes");
        if got != want {
            rep.finding(obj! {"what" => vec![format!("elements of {len} bytes, role {role}: finish({}) returned {got}, expected {want}; own message {}", hexs(&m), hexs(&own))]});
        }
    });
    rep.merge(r);
}

type Row = (String, bool, String, bool, bool);
fn read_table(file: &str) -> HashMap<Row, String> {
    let mut rows: HashMap<Row, String> = HashMap::new();
    for j in tlc_lines(file) {
        rows.insert(
            (j.get("role").s().into(), j.get("len").s() == "ok", j.get("tag").s().into(), j.get("own").b(), j.get("dec").b()),
            j.get("status").s().into(),
        );
    }
    rows
}

/// S03: arbitrary byte strings, judged by the table of outcomes
fn table(file: &str, a: &Args, rep: &mut Report) {
    let rows = read_table(file);
    rep.add("table_rows", rows.len() as u64);
    let n = a.num("fuzz", 60_000);
    let seed = a.seed();
    let r = parallel(n, |i, rep| {
        let mut r = Prng::new(&[seed, i as u64, 77]);
        let role = *r.pick(&["A", "B", "S"]);
        let (l1, l2) = (r.below(20), r.below(20));
        let ids = [r.bytes(l1), r.bytes(l2)];
        let pw = r.bytes(l2);
        let Some((s, own)) = start::<Ed25519Group>(role, &pw, &ids, Tape::new(&[seed, i as u64]), false) else { return };
        // systematic: all lengths and first bytes; then random structure
        let mut m = match i % 6 {
            0 => {
                let l = (i / 6) % 140;
                r.bytes(l)
            }
            1 => {
                let mut v = r.bytes(33);
                v[0] = (i / 6) as u8;
                v
            }
            2 => {
                let mut v = own.clone();
                v[0] = (i / 6) as u8;
                v
            }
            3 => {
                let mut v = own.clone();
                let k = r.below(v.len());
                v[k] ^= 1 << r.below(8);
                v
            }
            4 => {
                let mut v = vec![*r.pick(&[0, 0xff, 0x7f, 0x80, 1]); 33];
                let k = 1 + r.below(32);
                v[k] = r.below(256) as u8;
                v
            }
            _ => {
                // points in the vicinity of non-canonical encodings
                let mut v = vec![0xff; 33];
                v[1] = 0xe0 + r.below(32) as u8;
                v[32] = *r.pick(&[0x7f, 0xff]);
                v
            }
        };
        if !m.is_empty() && i % 6 != 1 && i % 6 != 2 && r.chance(3, 4) {
            m[0] = match role {
                "A" => b'B',
                "B" => b'A',
                _ => b'S',
            };
        }
        let tag = match m.first() {
            Some(b'A') => "A",
            Some(b'B') => "B",
            Some(b'S') => "S",
            _ => "other",
        };
        let len = m.len() == 33;
        let key = (role.to_string(), len, tag.to_string(), len && m[1..] == own[1..], len && decodes(&m[1..]));
        let want = rows.get(&key).cloned().unwrap_or_else(|| rows[&(key.0.clone(), key.1, key.2.clone(), false, false)].clone());
        let (got, _) = finish(s, &m);
        rep.count("fuzzed_finishes");
        rep.count(&format!("fuzz_expected_{want}"));
        if got != want {
            rep.finding(obj! {"what" => vec![format!("role {role}: finish({}) returned {got}, expected {want}; own message {}", hexs(&m), hex(&own))]});
        }
    });
    rep.merge(r);
}
