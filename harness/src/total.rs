//! Sessions of spec/Outcomes.tla in the real code: every operation answers, and as the specification allows.

use crate::base::*;
use crate::engine::*;
use crate::json::J;
use crate::obj;
use crate::prng::Prng;
use crate::report::{hexs, Report};
use crate::strings::content;
use crate::tape::Tape;
use crate::util::{parallel, Args};
use curve25519_dalek::constants::{ED25519_BASEPOINT_POINT, EIGHT_TORSION, RISTRETTO_BASEPOINT_POINT};
use ::spake2::{Ed25519Group, Group};
use ::srp::utils::compute_k;
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use num_bigint::BigUint;
use password_hash::SaltString;
use std::collections::HashMap;

type Cls = (String, usize);

/// one operation: the classes of its arguments that are not usual, and what it may answer
#[derive(Default)]
struct Op {
    op: String,
    cls: HashMap<String, Cls>,
    allowed: Vec<String>,
}
struct Row {
    flags: HashMap<String, bool>,
    proto: String,
    ops: Vec<Op>,
    text: String,
}

fn rows(file: &str) -> Vec<Row> {
    let t = std::fs::read_to_string(file).unwrap();
    t.lines()
        .filter(|l| l.starts_with("\"{"))
        .map(|l| {
            let j = J::parse(J::parse(l).s());
            let v = j.get("v");
            let mut flags = HashMap::new();
            if let J::Obj(m) = v {
                for (k, x) in m {
                    if let J::Bool(b) = x {
                        flags.insert(k.clone(), *b);
                    }
                }
            }
            let mut ops = vec![];
            let mut cur = Op::default();
            let mut text = format!("{v}", v = v.text());
            for e in j.get("log").arr() {
                let c = e.get("cls");
                if c.get("c").s() != "usual" {
                    let cls = (c.get("c").s().to_string(), c.get("n").n() as usize);
                    text.push_str(&format!(" {}.{}={}:{}", e.get("op").s(), e.get("name").s(), cls.0, cls.1));
                    cur.cls.insert(e.get("name").s().into(), cls);
                }
                if e.get("last").b() {
                    cur.op = e.get("op").s().into();
                    cur.allowed = e.get("allowed").strs();
                    ops.push(std::mem::take(&mut cur));
                }
            }
            Row { flags, proto: v.get("proto").s().into(), ops, text }
        })
        .collect()
}

fn fill(c: &Cls, r: &mut Prng) -> B {
    match &c.0[..] {
        "zero" => vec![0; c.1],
        "ff" => vec![255; c.1],
        "text" => {
            let t = "paſſword ünicode \u{1F511} Zażółć ".as_bytes();
            t.iter().cycle().skip(r.below(t.len())).take(c.1).copied().collect()
        }
        _ => r.bytes(c.1),
    }
}
fn usual(r: &mut Prng) -> B {
    // every length is usual somewhere
    let n = if r.chance(1, 2) { 3 + r.below(30) } else { r.below(600) };
    let k = r.below(14);
    content(k, n, r)
}

struct Play<'a> {
    e: Engine,
    v: Variant,
    r: &'a mut Prng,
    row: &'a Row,
    at: usize,
    /// what was done, for the report
    story: Vec<String>,
    over: bool,
    last: B,
}

impl Play<'_> {
    fn flag(&self, f: &str) -> bool {
        self.row.flags.get(f).copied().unwrap_or(false)
    }
    /// class of an argument of the operation that comes next
    fn cls(&self, name: &str) -> Option<Cls> {
        self.row.ops[self.at].cls.get(name).cloned()
    }
    fn input(&mut self, name: &str) -> B {
        let b = match self.cls(name) {
            Some(c) if c.0 == "same" => self.last.clone(),
            Some(c) => fill(&c, self.r),
            None => usual(self.r),
        };
        self.last = b.clone();
        b
    }
    /// takes the step and judges it; None if the session ends here
    fn step(&mut self, name: &str, sess: usize, op: &str, args: Vec<B>, db: &Db, rep: &mut Report) -> Option<Vec<B>> {
        let want = &self.row.ops[self.at];
        assert_eq!(want.op, name, "{}", self.row.text);
        let shown: Vec<String> = args.iter().map(|a| hexs(a)).collect();
        let s = Step { op: op.into(), args, rng: vec![] };
        let o = self.e.step(self.v, sess, &s, db);
        rep.count("operations");
        self.story.push(format!("{name}({}) -> {}", shown.join(", "), o.status));
        if !want.allowed.contains(&o.status) {
            rep.finding(obj! {"what" => vec![format!(
                "{name}: {} where only {{{}}} is justified ({}; last: {})", o.status, want.allowed.join(", "), self.row.text,
                self.story.last().unwrap().chars().take(300).collect::<String>())],
                "variant" => format!("{:?}", self.v), "story" => self.story.clone()});
            return None;
        }
        self.at += 1;
        if self.at == self.row.ops.len() {
            self.over = true;
        }
        if o.status != "Ok" {
            rep.count("refused as documented");
            return None;
        }
        if self.over {
            return None;
        }
        Some(o.outs)
    }
}

// ---------------------------------------------------------------- SPAKE2

fn undecodable(r: &mut Prng) -> B {
    loop {
        let b = r.bytes(32);
        if CompressedEdwardsY(b[..].try_into().unwrap()).decompress().is_none() {
            return b;
        }
    }
}

fn sp_msg(p: &mut Play, pw: &B, own: &B, peer: &B) -> B {
    let Some((c, n)) = p.cls("msg") else { return peer.clone() };
    let t = peer[0];
    let body = |b: B| [vec![t], b].concat();
    match &c[..] {
        "length" => {
            let mut m = peer.clone();
            m.extend(p.r.bytes(n));
            m.truncate(n);
            m
        }
        "tag" => [vec![n as u8], peer[1..].to_vec()].concat(),
        "mirrored" => own.clone(),
        "ownbody" => body(own[1..].to_vec()),
        "junk" => body(p.r.bytes(32)),
        "undecodable" => body(undecodable(p.r)),
        "base" => body(ED25519_BASEPOINT_POINT.compress().to_bytes().to_vec()),
        "M" => body(Ed25519Group::element_to_bytes(&Ed25519Group::const_m())),
        "N" => body(Ed25519Group::element_to_bytes(&Ed25519Group::const_n())),
        "S" => body(Ed25519Group::element_to_bytes(&Ed25519Group::const_s())),
        "cancels" | "nearly cancels" => {
            // what is left when the blinding of the peer's side is taken away is neutral, or of small order
            let u = match t {
                b'A' => Ed25519Group::const_m(),
                b'B' => Ed25519Group::const_n(),
                _ => Ed25519Group::const_s(),
            };
            let mut e = Ed25519Group::scalarmult(&u, &Ed25519Group::hash_to_scalar(pw));
            if c != "cancels" {
                let i = 1 + p.r.below(7);
                e += EIGHT_TORSION[i];
            }
            body(Ed25519Group::element_to_bytes(&e))
        }
        "noncanonical" => {
            // y + p for small y, and the sign of x = 0
            let mut b = vec![0xff; 32];
            b[0] = 0xed + p.r.below(19) as u8;
            b[31] = *p.r.pick(&[0x7f, 0xff]);
            if p.r.chance(1, 4) {
                b = vec![0; 32];
                b[0] = 1;
                b[31] = 0x80;
            }
            body(b)
        }
        "identity" => body(EdwardsPoint::identity().compress().to_bytes().to_vec()),
        "torsion" => {
            let i = p.r.below(8);
            body(EIGHT_TORSION[i].compress().to_bytes().to_vec())
        }
        _ => {
            let s = wide(p.r);
            body(EdwardsPoint::mul_base(&s).compress().to_bytes().to_vec())
        }
    }
}
fn wide(r: &mut Prng) -> Scalar {
    Scalar::from_bytes_mod_order_wide(&r.bytes(64).try_into().unwrap())
}

fn spake(p: &mut Play, rep: &mut Report) -> Option<()> {
    let none = Db::default();
    let sym = p.flag("sym");
    let pw = p.input("pw");
    let ida = p.input("ida");
    let idb = if sym { vec![] } else { p.input("idb") };
    let own = p.r.chance(1, 2);
    let role = |a: &str| if own { a.to_lowercase().into_bytes() } else { a.as_bytes().to_vec() };
    let args = |r: &str| {
        let mut v = vec![role(r), pw.clone(), ida.clone()];
        if !sym {
            v.push(idb.clone());
        }
        v
    };
    let (r1, r2) = if sym { ("S", "S") } else { ("A", "B") };
    let m1 = p.step("sp.start1", 1, "sp.start", args(r1), &none, rep)?.remove(0);
    let m2 = p.step("sp.start2", 2, "sp.start", args(r2), &none, rep)?.remove(0);
    let d = sp_msg(p, &pw, &m1, &m2);
    p.step("sp.fin1", 1, "sp.finish", vec![d], &none, rep)?;
    let d = sp_msg(p, &pw, &m2, &m1);
    p.step("sp.fin2", 2, "sp.finish", vec![d], &none, rep)?;
    None
}

// ---------------------------------------------------------------- SRP

fn sr_pub(p: &mut Play, name: &str, v: &B, own: &B, peer: &B) -> B {
    let Some((c, _)) = p.cls(name) else { return peer.clone() };
    let n = group(p.v.grp).n;
    let be = |x: BigUint| x.to_bytes_be();
    let zeros = |k: usize, mut b: B| {
        let mut v = vec![0; k];
        v.append(&mut b);
        v
    };
    let some = 1 + p.r.below(40);
    match &c[..] {
        "empty" => vec![],
        "zero" => vec![0],
        "zeros" => vec![0; 1 + p.r.below(300)],
        "N" => be(n),
        "padded N" => zeros(some, be(n)),
        "multiple" => be(n * BigUint::from_bytes_be(&zeros(0, p.r.bytes(some)))),
        "one" => vec![1],
        "N-1" => be(n - 1u8),
        "N+1" => be(n + 1u8),
        "long" => loop {
            let b = p.r.bytes(1000 + 50 * some);
            if BigUint::from_bytes_be(&b) % &n != BigUint::default() {
                break b;
            }
        },
        "g" => be(group(p.v.grp).g),
        "power" => be(BigUint::from(1u8) << p.r.below(n.bits() as usize + 20)),
        "half" => be((n + 1u8) >> 1),
        "cancels" => {
            // the server's: k*v, so that nothing is left of B but g^b = 0
            let g = group(p.v.grp);
            let k = match p.v.hash {
                0 => compute_k::<sha1::Sha1>(&g),
                1 => compute_k::<sha2::Sha256>(&g),
                _ => compute_k::<sha2::Sha512>(&g),
            };
            let x = BigUint::from_bytes_be(v);
            be(if name == "B" { k * x % n } else { x })
        }
        "padded" => zeros(some, peer.clone()),
        "plus N" => be(BigUint::from_bytes_be(peer) + n),
        _ => own.clone(),
    }
}
fn change(p: &mut Play, name: &str, right: &B, own: &B) -> B {
    let Some((c, _)) = p.cls(name) else { return right.clone() };
    let mut b = right.clone();
    match &c[..] {
        "flipped" => {
            let i = p.r.below(8 * b.len());
            b[i / 8] ^= 1 << (i % 8);
        }
        "cut" => {
            let n = p.r.below(b.len());
            b.truncate(n);
        }
        "longer" => {
            let n = 1 + p.r.below(70);
            b.extend(p.r.bytes(n));
        }
        "empty" => b.clear(),
        "zero" => b.fill(0),
        "ff" => b.fill(255),
        _ => b.clone_from(own),
    }
    b
}
fn illegal(p: &Play, b: &B) -> bool {
    BigUint::from_bytes_be(b) % group(p.v.grp).n == BigUint::default()
}

fn srp(p: &mut Play, rep: &mut Report) -> Option<()> {
    let none = Db::default();
    let (u, pw, salt) = (p.input("u"), p.input("p"), p.input("salt"));
    let v = p.step("sr.reg", 0, "sr.reg", vec![u.clone(), pw.clone(), salt.clone()], &none, rep)?.remove(0);
    let a = p.input("a");
    let apub = p.step("sr.cstart", 1, "sr.cstart", vec![a, u, pw], &none, rep)?.remove(0);
    let b = p.input("b");
    let n = group(p.v.grp).n;
    let right = v.clone();
    let v = match p.cls("v").map(|c| c.0).as_deref() {
        None => v,
        Some("empty") => vec![],
        Some("zeros") => vec![0; 1 + p.r.below(300)],
        Some("one") => vec![1],
        Some("N") => n.to_bytes_be(),
        Some("N-1") => (n - 1u8).to_bytes_be(),
        Some("g") => group(p.v.grp).g.to_bytes_be(),
        Some("long") => p.r.bytes(1500),
        _ => vec![255; n.to_bytes_be().len()],
    };
    let bpub = p.step("sr.sstart", 2, "sr.sstart", vec![b, v], &none, rep)?.remove(0);
    if illegal(p, &apub) || illegal(p, &bpub) {
        rep.count("public values that are zero by chance");
        return None;
    }
    let d = sr_pub(p, "B", &right, &apub, &bpub);
    let m1 = p.step("sr.creply", 1, "sr.reply", vec![d, salt], &none, rep)?.remove(0);
    let d = sr_pub(p, "A", &right, &bpub, &apub);
    let m2 = p.step("sr.sreply", 2, "sr.reply", vec![d], &none, rep)?.remove(0);
    let d = change(p, "proof", &m1, &m2);
    p.step("sr.sverify", 2, "sr.verify", vec![d], &none, rep)?;
    let d = change(p, "proof", &m2, &m1);
    p.step("sr.cverify", 1, "sr.verify", vec![d], &none, rep)?;
    None
}

// ---------------------------------------------------------------- AuCPace

fn params(c: Option<Cls>) -> B {
    match c.map(|c| c.0).as_deref() {
        None => b"ln=1,r=8".to_vec(),
        Some("none") => vec![],
        Some("one") => b"i=1000".to_vec(),
        Some("fails") => b"o=fails".to_vec(),
        Some("no output") => b"o=none".to_vec(),
        Some("48 bytes") => b"o=48".to_vec(),
        _ => {
            // 127 characters
            let mut s = String::new();
            for i in 0..3 {
                s.push_str(&format!("parameter-{i}={},", "9".repeat(26)));
            }
            s.push_str("k=");
            while s.len() < 127 {
                s.push('v');
            }
            s.into_bytes()
        }
    }
}
fn psalt(c: &Option<Cls>, sent: B, r: &mut Prng) -> B {
    match c.as_ref().map(|c| &c.0[..]) {
        None => sent,
        Some("short") => b"AAAA".to_vec(),
        Some("longest") => vec![b'z'; 64],
        _ => SaltString::encode_b64(&r.bytes(16)).unwrap().as_str().as_bytes().to_vec(),
    }
}
fn au_point(p: &mut Play, name: &str, own: &B, sent: &B) -> B {
    match p.cls(name).as_ref().map(|c| &c.0[..]) {
        None => sent.clone(),
        Some("neutral") => pb(&RistrettoPoint::identity()),
        Some("base") => pb(&RISTRETTO_BASEPOINT_POINT),
        Some("minus") => pb(&-point(sent)),
        Some("mirrored") => own.clone(),
        _ => pb(&(wide(p.r) * RISTRETTO_BASEPOINT_POINT)),
    }
}

fn aucpace(p: &mut Play, rep: &mut Report) -> Option<()> {
    let none = Db::default();
    let (strong, partial, pre, exp) = (p.flag("strong"), p.flag("partial"), p.flag("pre"), p.flag("exp"));
    let (heapreg, heap) = (p.flag("heapreg"), p.flag("heap"));
    let fl = vec![strong as u8, partial as u8, pre as u8, exp as u8, exp as u8];
    let other = pb(&(wide(p.r) * RISTRETTO_BASEPOINT_POINT));
    let (u, pw) = (p.input("u"), p.input("p"));
    let par = params(p.cls("par"));
    let reg = p.step("au.reg", 0, "au.reg", vec![u.clone(), pw.clone(), par, vec![strong as u8], vec![!heapreg as u8]], &none, rep)?;
    let mut db = Db::default();
    if partial {
        let k = p.step("au.key", 0, "au.key", vec![], &none, rep)?;
        db.keys.insert(u.clone(), (scalar(&k[0]), point(&k[1])));
    }
    let ssid = match p.cls("ssid") {
        Some(c) => fill(&c, p.r),
        None => p.r.bytes(24),
    };
    let cn = p.step("au.cstart", 1, "au.cstart", vec![fl.clone(), ssid.clone()], &none, rep)?;
    let sn = p.step("au.sstart", 2, "au.sstart", vec![fl, ssid], &none, rep)?;
    let (cn, sn) = if pre { (vec![], vec![]) } else { (cn[0].clone(), sn[0].clone()) };
    let nonce = |p: &mut Play, own: &B, sent: &B| match p.cls("nonce").map(|c| c.0).as_deref() {
        None => sent.clone(),
        Some("zero") => vec![0; sent.len()],
        Some("ff") => vec![255; sent.len()],
        _ => own.clone(),
    };
    let d = nonce(p, &cn, &sn);
    let user = p.step("au.caug", 1, "au.caug", vec![d, u.clone(), pw], &none, rep)?;
    let d = nonce(p, &sn, &cn);
    let mut name = user[0].clone();
    if let Some(c) = p.cls("user") {
        name = p.r.bytes(c.1);
        if name == u {
            return None;
        }
        if partial && p.r.chance(1, 2) {
            // a key but no verifier
            let x = wide(p.r);
            db.keys.insert(name.clone(), (x, x * RISTRETTO_BASEPOINT_POINT));
        }
    }
    let stored = text(&reg[2]).parse().unwrap();
    let blinded = if strong { au_point(p, "blinded", &other, &user[1]) } else { vec![] };
    if strong {
        let q = match p.cls("q").map(|c| c.0).as_deref() {
            None => scalar(&reg[1]),
            Some("zero") => Scalar::ZERO,
            _ => Scalar::ONE,
        };
        db.strong.insert(u.clone(), (point(&reg[3]), q, stored));
    } else {
        let s = psalt(&p.cls("stored salt"), reg[1].clone(), p.r);
        db.plain.insert(u.clone(), (point(&reg[3]), SaltString::from_b64(&text(&s)).unwrap(), stored));
    }
    let info = p.step("au.sinfo", 2, "au.sinfo", vec![d, name, blinded.clone()], &db, rep)?;
    // group, server's key, salt, parameters
    let x = au_point(p, "X", &other, &info[1]);
    let salt = if strong { au_point(p, "salt", &blinded, &info[2]) } else { psalt(&p.cls("salt"), info[2].clone(), p.r) };
    let par = match p.cls("par") {
        None => info[3].clone(),
        c => params(c),
    };
    p.step("au.ccpace", 1, "au.ccpace", vec![x, salt, par, vec![!heap as u8]], &none, rep)?;
    let ci = p.input("ci");
    let cy = p.step("au.cpub", 1, "au.pub", vec![ci.clone()], &none, rep)?.remove(0);
    let sy = p.step("au.spub", 2, "au.pub", vec![ci], &none, rep)?.remove(0);
    let d = au_point(p, "Y", &cy, &sy);
    let ca = p.step("au.crecv", 1, "au.recv", vec![d], &none, rep)?.remove(0);
    let d = au_point(p, "Y", &sy, &cy);
    p.step("au.srecv", 2, "au.recv", vec![d], &none, rep)?;
    let junk = p.r.bytes(64);
    let d = change(p, "mac", &ca, &junk);
    let sa = p.step("au.sauth", 2, "au.auth", vec![d], &none, rep)?.remove(1);
    let d = change(p, "mac", &sa, &ca);
    p.step("au.cauth", 1, "au.auth", vec![d], &none, rep)?;
    None
}

pub fn conformance(a: &Args, rep: &mut Report) {
    let all = rows(a.opt("sessions").unwrap());
    let worlds = a.num("worlds", 1);
    let mut jobs: Vec<(usize, usize)> = (0..worlds).flat_map(|w| (0..all.len()).map(move |i| (w, i))).collect();
    let mut r = Prng::new(&[a.seed(), 80]);
    for i in (1..jobs.len()).rev() {
        jobs.swap(i, r.below(i + 1));
    }
    let out = parallel(jobs.len(), |j, rep| {
        let (w, i) = jobs[j];
        let row = &all[i];
        let mut r = Prng::new(&[a.seed(), 81, w as u64, i as u64]);
        // large groups are slow
        let grp = if r.chance(1, 10) { r.below(2) } else { 2 + r.below(GROUPS - 2) };
        let v = Variant { au: r.below(AUS), grp, hash: r.below(HASHES) };
        let mut e = Engine::new(&Tape::new(&[a.seed(), 82, w as u64, i as u64]));
        e.prepare(v, None);
        let mut p = Play { e, v, r: &mut r, row, at: 0, story: vec![], over: false, last: vec![] };
        rep.count("replayed");
        match &row.proto[..] {
            "sp" => spake(&mut p, rep),
            "sr" => srp(&mut p, rep),
            _ => aucpace(&mut p, rep),
        };
        if p.over {
            rep.count("sessions to the end of the behaviour");
        }
        if rep.samples.is_empty() && p.over {
            rep.sample(obj! {"session" => row.text.clone(), "steps" => p.story.clone()});
        }
    });
    rep.merge(out);
}
