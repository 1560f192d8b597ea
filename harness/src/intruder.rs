//! Intruders (spec/Intruder.tla) against the real code: whether a combination of what the specification
//! says they know is the secret.

use crate::aucpace::{b64, hn, to_scalar};
use crate::base::*;
use crate::hasher::{compute, take_log, Out, TH, TP};
use crate::json::J;
use crate::obj;
use crate::prng::Prng;
use crate::report::{hexs, Report};
use crate::srpgroups::{builtin, custom};
use crate::tape::Tape;
use crate::util::{guard, parallel, Args};
use ::aucpace::client::*;
use ::aucpace::server::*;
use ::aucpace::{Database, PartialAugDatabase, StrongDatabase};
use ::spake2::{Ed25519Group, Group, Identity, Password, Spake2};
use ::srp::client::SrpClient;
use ::srp::server::SrpServer;
use ::srp::types::SrpGroup;
use ::srp::utils::{compute_k, compute_u};
use curve25519_dalek::constants::{ED25519_BASEPOINT_POINT, RISTRETTO_BASEPOINT_POINT};
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
use digest::Digest;
use num_bigint::BigUint;
use sha2::{Sha256, Sha512};
use std::collections::HashMap;

type Bytes = Vec<u8>;

/// a product of scalars and inverses of scalars, with a sign
#[derive(Clone, Debug)]
struct Co {
    w: Vec<(bool, String)>,
    neg: bool,
}

#[derive(Clone, Debug)]
struct Scene {
    proto: String,
    name: String,
    who: String,
    msg: Vec<(Co, String)>,
    els: Vec<String>,
    coefs: Vec<Co>,
    after: String,
    publics: Vec<String>,
    bases: Vec<(String, String)>,
    most: usize,
    control: bool,
}

fn co(j: &J) -> Co {
    Co {
        w: j.get("w").arr().iter().map(|f| (f.arr()[0].s() == "/", f.arr()[1].s().to_string())).collect(),
        neg: j.get("n").n() < 0,
    }
}

fn scenes(file: &str, proto: &str, extra: usize) -> Vec<Scene> {
    let t = std::fs::read_to_string(file).unwrap();
    t.lines()
        .filter(|l| l.starts_with("\"{"))
        .map(|l| {
            let j = J::parse(J::parse(l).s());
            Scene {
                proto: j.get("proto").s().into(),
                name: j.get("name").s().into(),
                who: j.get("who").s().into(),
                msg: j.get("msg").arr().iter().map(|p| (co(p.get("c")), p.get("b").s().into())).collect(),
                els: j.get("els").strs(),
                coefs: j.get("coefs").arr().iter().map(co).collect(),
                after: j.get("after").s().into(),
                publics: j.get("publics").strs(),
                bases: ["M", "N", "S"].iter().filter(|_| proto == "spake" && j.get("proto").s() == "spake")
                    .map(|b| (b.to_string(), j.get("bases").get(b).s().to_string())).collect(),
                most: j.get("most").n() as usize + extra,
                control: *j.get("control") == J::Bool(true),
            }
        })
        .filter(|s| s.proto == proto)
        .collect()
}

fn text(c: &Co, b: &str) -> String {
    let mut s = String::from(if c.neg { "-" } else { "" });
    for (over, x) in &c.w {
        s += if *over { "(1/" } else { "" };
        s += x;
        s += if *over { ")*" } else { "*" };
    }
    s + b
}
fn texts(v: &[(Co, String)]) -> String {
    v.iter().map(|(c, b)| text(c, b)).collect::<Vec<_>>().join(" + ")
}

type Scalars = HashMap<&'static str, Scalar>;
fn scalar(c: &Co, k: &Scalars) -> Scalar {
    let mut s = Scalar::ONE;
    for (over, x) in &c.w {
        let v = *k.get(&x[..]).unwrap_or_else(|| panic!("no scalar {x}"));
        s *= if *over { v.invert() } else { v };
    }
    if c.neg {
        -s
    } else {
        s
    }
}

/// the products of the scene's coefficients and elements, by name
fn products<P: Clone>(sc: &Scene, el: impl Fn(&str) -> P, mul: impl Fn(&P, &Co) -> P) -> Vec<(P, (Co, String))> {
    let mut v = vec![];
    for b in &sc.els {
        let e = el(b);
        for c in &sc.coefs {
            v.push((mul(&e, c), (c.clone(), b.clone())));
        }
    }
    v
}

/// the first combination of up to most products for which hit holds
fn search<P: Clone>(
    v: &[(P, (Co, String))],
    most: usize,
    add: impl Fn(&P, &P) -> P,
    mut hit: impl FnMut(&P) -> bool,
) -> (u64, Option<String>) {
    let mut tried = 0;
    let mut go = |p: &P, w: &[usize]| {
        tried += 1;
        if hit(p) {
            let t: Vec<_> = w.iter().map(|i| v[*i].1.clone()).collect();
            return Some(texts(&t));
        }
        None
    };
    for i in 0..v.len() {
        if let Some(t) = go(&v[i].0, &[i]) {
            return (tried, Some(t));
        }
        for j in i + 1..v.len() {
            if most < 2 {
                break;
            }
            let s = add(&v[i].0, &v[j].0);
            if let Some(t) = go(&s, &[i, j]) {
                return (tried, Some(t));
            }
            for k in j + 1..v.len() {
                if most < 3 {
                    break;
                }
                let s = add(&s, &v[k].0);
                if let Some(t) = go(&s, &[i, j, k]) {
                    return (tried, Some(t));
                }
            }
        }
    }
    (tried, None)
}

/// sequences of public values, up to a length
fn sequences(n: usize, most: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    let mut at = 0;
    while at < v.len() {
        let s = v[at].clone();
        at += 1;
        if s.len() < most {
            for i in 0..n {
                let mut t = s.clone();
                t.push(i);
                v.push(t);
            }
        }
    }
    v
}

/// lengths that strings take
fn length(r: &mut Prng) -> usize {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => [31, 32, 33, 63, 64, 65, 127, 128, 129][r.below(9)],
        3 => 200 + r.below(400),
        _ => 2 + r.below(30),
    }
}
/// a password and another
fn passwords(r: &mut Prng) -> (Bytes, Bytes) {
    let n = length(r);
    let p = r.bytes(n);
    let mut q = p.clone();
    match r.below(4) {
        0 => q.push(r.u64() as u8),
        1 if n > 0 => {
            q.pop();
        }
        2 if n > 0 => {
            let i = r.below(n);
            q[i] ^= 1 << r.below(8);
        }
        _ => {
            let n = length(r);
            q = r.bytes(n);
        }
    }
    if p == q {
        q.push(1);
    }
    (p, q)
}

fn judge(sc: &Scene, tried: u64, found: Option<String>, what: &str, rep: &mut Report) {
    rep.add("combinations tried", tried);
    match (sc.control, found) {
        (false, None) => rep.count("intruders that got nothing"),
        (true, Some(_)) => rep.count("controls: who has what it takes gets in"),
        (true, None) => rep.count("controls that did not get in"),
        (false, Some(t)) => rep.finding(obj! {"what" => vec![format!(
            "{}: an intruder ({}, against {}{}) computes {what} as {t}",
            sc.proto, sc.name, sc.who,
            if sc.msg.is_empty() { String::new() } else { format!(", sending {}", texts(&sc.msg)) })]}),
    }
}

// ---------------------------------------------------------------- SPAKE2

fn sha256(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

fn spake(sc: &Scene, r: &mut Prng, rep: &mut Report) {
    for (b, want) in &sc.bases {
        let p = match &b[..] {
            "M" => Ed25519Group::const_m(),
            "N" => Ed25519Group::const_n(),
            _ => Ed25519Group::const_s(),
        };
        if hexs(p.compress().as_bytes()) != *want {
            rep.finding(obj! {"what" => vec![format!("{b} is not the published element, so who chose it may know its relation to B")]});
        }
    }
    let (pw, guess) = passwords(r);
    let (n, m) = (length(r), length(r));
    let ida = r.bytes(n);
    let idb = if r.chance(1, 6) { ida.clone() } else { r.bytes(m) };
    let start = |side: &str, t: Tape| {
        let p = Password::new(&pw);
        let (a, b) = (Identity::new(&ida), Identity::new(&idb));
        match side {
            "A" => Spake2::<Ed25519Group>::start_a_with_rng(&p, &a, &b, t),
            "B" => Spake2::<Ed25519Group>::start_b_with_rng(&p, &a, &b, t),
            _ => Spake2::<Ed25519Group>::start_symmetric_with_rng(&p, &a, t),
        }
    };
    let tape = Tape::new(&[r.u64()]);
    let (v, x) = start(&sc.who, tape);
    let tape1 = Tape::new(&[r.u64()]);
    let (v1, _) = start(&sc.who, tape1.clone());
    let other = match &sc.who[..] {
        "A" => "B",
        "B" => "A",
        _ => "S",
    };
    let decode = |m: &[u8]| CompressedEdwardsY::from_slice(&m[1..]).ok().and_then(|c| c.decompress());
    let Some(xp) = decode(&x) else { return rep.count("unreadable messages") };
    let ks: Scalars = HashMap::from([
        ("y", Scalar::from_bytes_mod_order(r.bytes(32).try_into().unwrap())),
        ("pw", Ed25519Group::hash_to_scalar(&pw)),
        ("pg", Ed25519Group::hash_to_scalar(&guess)),
        ("x1", Ed25519Group::random_scalar(&mut tape1.clone())),
    ]);
    if ks["pw"] == ks["pg"] {
        return;
    }
    let el = |b: &str| match b {
        "B" => ED25519_BASEPOINT_POINT,
        "M" => Ed25519Group::const_m(),
        "N" => Ed25519Group::const_n(),
        "S" => Ed25519Group::const_s(),
        "Xu" => {
            let own = match &sc.who[..] {
                "A" => Ed25519Group::const_m(),
                "B" => Ed25519Group::const_n(),
                _ => Ed25519Group::const_s(),
            };
            xp - own * ks["pw"]
        }
        _ => xp,
    };
    // what the victim receives
    let (y, yp) = if sc.name == "overheard" {
        let (_, m) = start(other, Tape::new(&[r.u64()]));
        let Some(p) = decode(&m) else { return rep.count("unreadable messages") };
        (m, p)
    } else {
        let p: EdwardsPoint = sc.msg.iter().map(|(c, b)| el(b) * scalar(c, &ks)).sum();
        let mut m = other.as_bytes().to_vec();
        m.extend(p.compress().as_bytes());
        (m, p)
    };
    let el = |b: &str| match b {
        "Y" => yp,
        "X1" => ED25519_BASEPOINT_POINT * ks["x1"],
        _ => el(b),
    };
    let Some(Ok(key)) = guard(|| v.finish(&y)) else { return rep.count("messages refused") };
    let (xb, yb) = (&x[1..], &y[1..]);
    if sc.name == "another" {
        if let Some(Ok(k1)) = guard(|| v1.finish(&y)) {
            judge(sc, 1, (k1 == key).then(|| "the key of another session".to_string()), "the key", rep);
        }
    }
    let (xy, yx) = if sc.who == "A" || sc.who == "S" && xb < yb { (xb, yb) } else { (yb, xb) };
    let (pwh, ah, bh) = (sha256(&[&pw]), sha256(&[&ida]), sha256(&[&idb]));
    let parts: Vec<&[u8]> = if sc.who == "S" { vec![&pwh, &ah, xy, yx] } else { vec![&pwh, &ah, &bh, xy, yx] };
    let head = Sha256::new_with_prefix(parts.concat());
    let ps = products(sc, el, |p, c| p * scalar(c, &ks));
    let hit = |h: &Sha256, k: &[u8]| h.clone().chain_update(k).finalize()[..] == key[..];
    let (n, found) = search(&ps, sc.most, |a, b| a + b, |p| hit(&head, p.compress().as_bytes()));
    judge(sc, n, found, "the key", rep);
    if sc.control {
        return;
    }
    // other ways to write the transcript, with one product or nothing for the shared element
    let enc: Vec<[u8; 32]> = ps.iter().map(|p| p.0.compress().to_bytes()).collect();
    for s in 0u32..1 << parts.len() {
        for swap in [false, true] {
            let mut q: Vec<&[u8]> = parts.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|(_, p)| *p).collect();
            let n = q.len();
            if swap && n > 1 {
                q.swap(n - 2, n - 1);
            }
            let head = Sha256::new_with_prefix(q.concat());
            let found = enc.iter().zip(&ps).find(|(e, _)| hit(&head, &e[..])).map(|(_, p)| text(&p.1 .0, &p.1 .1));
            let found = found.or_else(|| hit(&head, &[]).then(|| "nothing".to_string()));
            rep.add("combinations tried", enc.len() as u64 + 1);
            if let Some(f) = found {
                return judge(sc, 0, Some(format!("the hash of {n} public parts and {f}")), "the key", rep);
            }
        }
    }
}

// ---------------------------------------------------------------- SRP

fn srp<D: Digest>(sc: &Scene, g: &SrpGroup, r: &mut Prng, rep: &mut Report) {
    let n = &g.n;
    let order = n - 1u32;
    let rnd = |r: &mut Prng| BigUint::from_bytes_be(&r.bytes(24));
    let (pw, guess) = passwords(r);
    let (i, j) = (length(r), length(r));
    let (user, salt) = (r.bytes(i), r.bytes(j));
    let (client, server) = (SrpClient::<D>::new(g), SrpServer::<D>::new(g));
    let priv_x = |p: &[u8]| SrpClient::<D>::compute_x(&SrpClient::<D>::compute_identity_hash(&user, p), &salt);
    let v = client.compute_verifier(&user, &pw, &salt);
    let vr = BigUint::from_bytes_be(&v);
    let k = compute_k::<D>(g);
    // now and then the intruder's exponent is small, so that his public value is short
    let small = |r: &mut Prng| if r.chance(1, 4) { BigUint::from(1 + r.below(3)) } else { rnd(r) };
    let (a, b) = if sc.who == "server" && sc.name != "overheard" { (small(r), rnd(r)) } else { (rnd(r), small(r)) };
    let b = if sc.name == "overheard" { rnd(r) } else { b };
    let mut ks: HashMap<&str, BigUint> = HashMap::from([("k", k.clone()), ("x", priv_x(&pw)), ("xg", priv_x(&guess))]);
    let expo = |c: &Co, ks: &HashMap<&str, BigUint>| {
        let mut e = BigUint::from(1u32);
        for (_, x) in &c.w {
            e = e * ks.get(&x[..]).unwrap_or_else(|| panic!("no exponent {x}")) % &order;
        }
        if c.neg {
            (&order - e) % &order
        } else {
            e
        }
    };
    let sub = |x: &BigUint, y: &BigUint| (x % n + (n - y % n)) % n;
    let pow = |x: &BigUint, e: &BigUint| x.modpow(e, n);
    let mut els: HashMap<&str, BigUint> = HashMap::from([("g", g.g.clone()), ("v", vr.clone())]);
    let hashed = |parts: &[&[u8]]| {
        let mut h = D::new();
        for p in parts {
            h.update(p);
        }
        h.finalize().to_vec()
    };
    let public = |name: &str, els: &HashMap<&str, BigUint>, ks: &HashMap<&str, BigUint>, m1: &[u8]| match name {
        "A" => els["Apub"].to_bytes_be(),
        "B" => els["Bpub"].to_bytes_be(),
        "v" => v.clone(),
        "salt" => salt.clone(),
        "user" => user.clone(),
        "N" => n.to_bytes_be(),
        "g" => g.g.to_bytes_be(),
        "u" => ks["u"].to_bytes_be(),
        "k" => ks["k"].to_bytes_be(),
        "x" => ks["x"].to_bytes_be(),
        _ => m1.to_vec(),
    };
    if sc.who == "server" {
        let bp = server.compute_public_ephemeral(&b.to_bytes_be(), &v);
        let br = BigUint::from_bytes_be(&bp);
        els.insert("B", br.clone());
        els.insert("Bpub", br.clone());
        els.insert("Bp", sub(&br, &(&k * &vr)));
        ks.insert("a", a.clone());
        ks.insert("u0", compute_u::<D>(&[], &[]));
        ks.insert("uB", compute_u::<D>(&[], &bp));
        ks.insert("uBB", compute_u::<D>(&bp, &bp));
        // of a part of what is sent and B; the rest is made to fit afterwards
        let size = n.to_bytes_be().len();
        let (mut part, tail) = (r.bytes(size), r.chance(1, 2));
        part[0] |= 0x80;
        ks.insert("uP", compute_u::<D>(&part, &bp));
        let in_parts = sc.msg.iter().any(|(c, _)| c.w.iter().any(|x| x.1 == "uP"));
        let sent = if sc.msg.is_empty() {
            client.compute_public_ephemeral(&a.to_bytes_be())
        } else {
            sc.msg.iter().fold(BigUint::from(1u32), |p, (c, e)| p * pow(&els[&e[..]], &expo(c, &ks)) % n).to_bytes_be()
        };
        // however it is written
        let sent = match r.below(4) {
            _ if in_parts => {
                let shift = BigUint::from(1u32) << (8 * size);
                let (part, want) = (BigUint::from_bytes_be(&part), BigUint::from_bytes_be(&sent));
                let whole = if tail {
                    sub(&want, &part) * pow(&shift, &(n - 2u32)) % n * shift + part
                } else {
                    let high = part * shift;
                    sub(&want, &high) + high
                };
                debug_assert!((&whole % n) == want);
                whole.to_bytes_be()
            }
            0 => [vec![0; 1 + r.below(3)], sent].concat(),
            1 => (BigUint::from_bytes_be(&sent) + n).to_bytes_be(),
            _ => sent,
        };
        els.insert("A", BigUint::from_bytes_be(&sent));
        els.insert("Apub", BigUint::from_bytes_be(&sent));
        ks.insert("u", compute_u::<D>(&els["A"].to_bytes_be(), &bp));
        let Some(Ok(ver)) = guard(|| server.process_reply(&b.to_bytes_be(), &v, &sent)) else { return rep.count("values refused") };
        let key = BigUint::from_bytes_be(ver.key());
        if key <= BigUint::from(1u32) {
            return rep.count("degenerate");
        }
        let ps = products(sc, |e| els[e].clone(), |p, c| pow(p, &expo(c, &ks)));
        let (t, f) = search(&ps, sc.most, |x, y| x * y % n, |p| *p == key);
        judge(sc, t, f, "the key", rep);
        // somebody with another password uses the code itself
        if sc.msg.len() == 1 && sc.name == "stolen" {
            let ap = client.compute_public_ephemeral(&a.to_bytes_be());
            if let (Some(Ok(s)), Some(Ok(c))) = (
                guard(|| server.process_reply(&b.to_bytes_be(), &v, &ap)),
                guard(|| client.process_reply(&a.to_bytes_be(), &user, &guess, &salt, &bp)),
            ) {
                let f = (s.key() == c.key() && s.key().len() > 2).then(|| "what the client computes from another password".to_string());
                judge(sc, 1, f, "the key", rep);
            }
        }
        if !sc.publics.is_empty() && sc.msg.len() <= 1 {
            let m1 = if sc.name == "overheard" {
                let Some(Ok(c)) = guard(|| client.process_reply(&a.to_bytes_be(), &user, &pw, &salt, &bp)) else { return };
                c.proof().to_vec()
            } else {
                vec![]
            };
            let vals: Vec<Bytes> = sc.publics.iter().map(|p| public(p, &els, &ks, &m1)).collect();
            for s in sequences(vals.len(), 3) {
                rep.count("proofs from public values tried");
                let p = hashed(&s.iter().map(|i| &vals[*i][..]).collect::<Vec<_>>());
                let names: Vec<&str> = s.iter().map(|i| &sc.publics[*i][..]).collect();
                if ver.key() == &p[..] {
                    rep.finding(obj! {"what" => vec![format!("SRP: the key of a session ({}) is H({})", sc.name, names.join(" | "))]});
                }
                let raw = s.iter().flat_map(|i| vals[*i].clone()).collect::<Bytes>();
                if sc.name == "stolen" && (ver.verify_client(&p).is_ok() || ver.verify_client(&raw).is_ok()) {
                    rep.finding(obj! {"what" => vec![format!("SRP: the server accepts H({}) as a proof from who does not know the password", names.join(" | "))]});
                }
            }
        }
    } else {
        let form = &sc.msg[0].1[..];
        let ap = client.compute_public_ephemeral(&a.to_bytes_be());
        let ar = BigUint::from_bytes_be(&ap);
        let gb = pow(&g.g, &b);
        let kg = &k * pow(&g.g, &ks["xg"]) % n;
        let bs = match form {
            "pow" => gb,
            "guess" => (kg + gb) % n,
            "reflect" => ar.clone(),
            "k times A" => &k * &ar % n,
            "k times pow" => &k * gb % n,
            "k" => &k % n,
            "k times guess" => kg,
            _ => (&k * &vr + gb) % n,
        };
        // however it is written
        let bs = if r.chance(1, 4) { bs + n } else { bs };
        let pad = if r.chance(1, 4) { 1 + r.below(3) } else { 0 };
        els.insert("A", ar.clone());
        els.insert("Apub", ar);
        els.insert("Bs", bs.clone());
        els.insert("Bpub", bs.clone());
        els.insert("D", sub(&bs, &(&k * &vr)));
        ks.insert("b", b);
        ks.insert("u", compute_u::<D>(&ap, &bs.to_bytes_be()));
        let Some(Ok(ver)) = guard(|| client.process_reply(&a.to_bytes_be(), &user, &pw, &salt, &[vec![0; pad], bs.to_bytes_be()].concat())) else {
            return rep.count("values refused");
        };
        let key = BigUint::from_bytes_be(ver.key());
        if key <= BigUint::from(1u32) {
            return rep.count("degenerate");
        }
        let ps = products(sc, |e| els[e].clone(), |p, c| pow(p, &expo(c, &ks)));
        let (t, f) = search(&ps, sc.most, |x, y| x * y % n, |p| *p == key);
        judge(sc, t, f, "the key", rep);
        if !sc.publics.is_empty() {
            let vals: Vec<Bytes> = sc.publics.iter().map(|p| public(p, &els, &ks, ver.proof())).collect();
            for s in sequences(vals.len(), 3) {
                rep.count("proofs from public values tried");
                let p = hashed(&s.iter().map(|i| &vals[*i][..]).collect::<Vec<_>>());
                let names: Vec<&str> = s.iter().map(|i| &sc.publics[*i][..]).collect();
                if ver.key() == &p[..] {
                    rep.finding(obj! {"what" => vec![format!("SRP: the key of a client is H({})", names.join(" | "))]});
                }
                let raw = s.iter().flat_map(|i| vals[*i].clone()).collect::<Bytes>();
                if ver.verify_server(&p).is_ok() || ver.verify_server(&raw).is_ok() {
                    rep.finding(obj! {"what" => vec![format!("SRP: the client accepts H({}) as a proof from who does not know the verifier", names.join(" | "))]});
                }
            }
        }
    }
}

// ---------------------------------------------------------------- AuCPace

const K: usize = 16;
type Sha = Sha512;

/// one user of one server
struct Place {
    user: Bytes,
    pw: Bytes,
    guess: Bytes,
    ssid: Bytes,
    ci: Bytes,
    strong: bool,
    partial: bool,
    hasher: Out,
    db: Db,
    /// the salt that the registration gave to the password hasher
    salt: String,
    w: Pt,
    client: AuCPaceClient<Sha, TH, Tape, K>,
    server: AuCPaceServer<Sha, Tape, K>,
    tape: Tape,
}

fn wide(parts: &[&[u8]]) -> (Pt, Scalar) {
    let h: [u8; 64] = hn::<Sha>(1, parts).try_into().unwrap();
    (Pt::from_uniform_bytes(&h), Scalar::from_bytes_mod_order_wide(&h))
}

impl Place {
    fn new(mode: &str, r: &mut Prng) -> Option<Place> {
        let (strong, partial) = (mode.contains("strong"), mode.contains("partial"));
        let tape = Tape::new(&[r.u64()]);
        let hasher = Out::Bytes(if r.chance(1, 2) { 32 } else { 64 });
        let (pw, guess) = passwords(r);
        let (i, j) = (length(r), length(r));
        let (user, ci) = (r.bytes(i), r.bytes(j));
        let mut client = AuCPaceClient::<Sha, TH, Tape, K>::new(tape.clone());
        let mut db = Db::default();
        take_log();
        let w = if strong {
            let m = if r.chance(1, 2) {
                cm(&client.register_alloc_strong(&user, &pw, TP::default(), TH(hasher)).ok()?)
            } else {
                cm(&client.register_strong::<_, 1300>(&user, &pw, TP::default(), TH(hasher)).ok()?)
            };
            let M::SReg { q, par, w, .. } = m else { return None };
            db.store_verifier_strong(&user, None, w, q, par.parse().ok()?);
            w
        } else {
            let m = if r.chance(1, 2) {
                cm(&client.register_alloc(&user, &pw, TP::default(), TH(hasher)).ok()?)
            } else {
                cm(&client.register::<_, 1300>(&user, &pw, TP::default(), TH(hasher)).ok()?)
            };
            let M::Reg { salt, par, w, .. } = m else { return None };
            db.store_verifier(&user, password_hash::SaltString::from_b64(&salt).ok()?, None, w, par.parse().ok()?);
            w
        };
        let salt = take_log().pop()?.salt;
        let mut server = AuCPaceServer::new(tape.clone());
        if partial {
            let (x, p) = server.generate_long_term_keypair();
            db.store_long_term_keypair(&user, x, p).ok()?;
        }
        Some(Place { user, pw, guess, ssid: vec![], ci, strong, partial, hasher, db, salt, w, client, server, tape })
    }
    /// the SSID of a new session, as the protocol hashes it
    fn fresh(&mut self, r: &mut Prng) -> Bytes {
        let n = 16 + length(r);
        let s = r.bytes(n);
        self.ssid = hn::<Sha>(0, &[&s]);
        s
    }
    fn gen(&self, prs: &Pt) -> (Pt, Scalar) {
        wide(&[&self.ssid, prs.compress().as_bytes(), &self.ci])
    }
    fn z(&self, pw: &[u8]) -> (Pt, Scalar) {
        wide(&[&self.user, pw])
    }
    fn sk1(&self, p: &Pt) -> Bytes {
        hn::<Sha>(2, &[&self.ssid, p.compress().as_bytes()])
    }
    fn key(&self, p: &Pt) -> Bytes {
        hn::<Sha>(5, &[&self.ssid, &self.sk1(p)])
    }
    /// the password hash as a scalar
    fn w_of(&self, pw: &[u8], salt: &str) -> Scalar {
        let mut v = self.user.clone();
        v.push(b':');
        v.extend(pw);
        to_scalar(&compute(self.hasher, &v, salt, "")).unwrap()
    }
    /// a server's session up to its public keys
    fn serve(&mut self, u: Pt, r: &mut Prng) -> Option<(AuCPaceServerRecvClientKey<Sha, K>, Pt, Option<Pt>, Pt)> {
        let s = self.fresh(r);
        let st = self.server.begin_prestablished_ssid(&s).ok()?;
        let (st, m) = self.info(st, u)?;
        let (x, q) = match m {
            M::Info { x, .. } => (x, None),
            M::SInfo { x, bs, .. } => (x, Some(bs)),
            _ => return None,
        };
        let (st, m) = st.generate_public_key(&self.ci);
        let M::Pub(y) = sm(&m) else { return None };
        Some((st, x, q, y))
    }
    #[allow(clippy::type_complexity)]
    fn info(&self, st: AuCPaceServerAugLayer<Sha, K>, u: Pt) -> Option<(AuCPaceServerCPaceSubstep<Sha, Tape, K>, M)> {
        let t = self.tape.clone();
        match (self.strong, self.partial) {
            (false, false) => Some(st.generate_client_info(&self.user, &self.db, t)).map(|(st, m)| (st, sm(&m))),
            (false, true) => Some(st.generate_client_info_partial_aug(&self.user, &self.db, t)).map(|(st, m)| (st, sm(&m))),
            (true, false) => st.generate_client_info_strong(&self.user, u, &self.db, t).ok().map(|(st, m)| (st, sm(&m))),
            (true, true) => st.generate_client_info_partial_strong(&self.user, u, &self.db, t).ok().map(|(st, m)| (st, sm(&m))),
        }
    }
    /// a client's session up to its public key; what the server sends is made from the blinded point
    fn ask(&mut self, reply: impl Fn(Pt) -> (Pt, Pt), r: &mut Prng) -> Option<(AuCPaceClientRecvServerKey<Sha, K>, Pt, Pt)> {
        let n = 16 + length(r);
        let s = r.bytes(n);
        self.ask_with(s, reply, r)
    }
    fn ask_with(&mut self, s: Bytes, reply: impl Fn(Pt) -> (Pt, Pt), r: &mut Prng) -> Option<(AuCPaceClientRecvServerKey<Sha, K>, Pt, Pt)> {
        self.ssid = hn::<Sha>(0, &[&s]);
        let st = self.client.begin_prestablished_ssid(&s).ok()?;
        let mut rng = self.tape.clone();
        let h = TH(self.hasher);
        let (st, u) = if self.strong {
            let (st, m) = st.start_augmentation_strong(&self.user, &self.pw, &mut rng);
            let M::Strong(_, u) = cm(&m) else { return None };
            let (x, bs) = reply(u);
            if r.chance(1, 2) {
                (st.generate_cpace_alloc(x, bs, TP::default(), h).ok()?, u)
            } else {
                (st.generate_cpace::<1300>(x, bs, TP::default(), h).ok()?, u)
            }
        } else {
            let (st, _) = st.start_augmentation(&self.user, &self.pw);
            let salt = password_hash::SaltString::from_b64(&self.salt).ok()?;
            let (x, _) = reply(RISTRETTO_BASEPOINT_POINT);
            let st = if r.chance(1, 2) {
                st.generate_cpace_alloc(x, &salt, TP::default(), h).ok()?
            } else {
                st.generate_cpace::<_, 1300>(x, &salt, TP::default(), h).ok()?
            };
            (st, RISTRETTO_BASEPOINT_POINT)
        };
        let (st, m) = st.generate_public_key(&self.ci, &mut rng);
        let M::Pub(y) = cm(&m) else { return None };
        Some((st, y, u))
    }
}

fn rnd(r: &mut Prng) -> Scalar {
    Scalar::from_bytes_mod_order(r.bytes(32).try_into().unwrap())
}

fn aucpace(sc: &Scene, r: &mut Prng, rep: &mut Report) {
    if guard(|| attack(sc, r, rep)).flatten().is_none() {
        rep.count("attempts refused");
    }
}

fn attack(sc: &Scene, r: &mut Prng, rep: &mut Report) -> Option<()> {
    let b = RISTRETTO_BASEPOINT_POINT;
    let mut at = Place::new(&sc.who, r)?;
    let rr = Pt::from_uniform_bytes(&r.bytes(64).try_into().unwrap());
    let mut ks: Scalars = HashMap::from([("r", rnd(r))]);
    let mut els: HashMap<&str, Pt> = HashMap::from([("O", Pt::default()), ("B", b), ("R", rr), ("W", at.w)]);
    let comb = |m: &[(Co, String)], els: &HashMap<&str, Pt>, ks: &Scalars| -> Pt { m.iter().map(|(c, e)| els[&e[..]] * scalar(c, ks)).sum() };
    let pick = |sc: &Scene, els: &HashMap<&str, Pt>, ks: &Scalars| products(sc, |e| els[e], |p, c| p * scalar(c, ks));
    match &sc.name[..] {
        // a session for each password-related string tried
        "stolen" | "password" | "unknown" => {
            if sc.name == "unknown" {
                at.user = [&at.user[..], b"?"].concat();
                if at.partial && r.chance(1, 2) {
                    let (x, p) = at.server.generate_long_term_keypair();
                    at.db.store_long_term_keypair(&at.user.clone(), x, p).ok()?;
                }
            }
            let z = at.z(&at.guess.clone()).0;
            let count = sc.coefs.len() * sc.els.len();
            for i in 0..count + count * (count - 1) / 2 {
                let (st, x, q, yb) = at.serve(b * ks["r"], r)?;
                els.extend([("X", x), ("Q", q.unwrap_or(b)), ("Z", z)]);
                ks.insert("w", at.w_of(&at.pw, &at.salt));
                let ps = pick(sc, &els, &ks);
                let (e, t) = nth(&ps, i);
                let y = rnd(r);
                let key = st.implicit_auth(at.gen(&e).0 * y).ok()?;
                let f = (key.to_vec() == at.key(&(yb * y))).then(|| texts(&t));
                let hit = f.is_some();
                if sc.control && !hit && i + 1 < count + count * (count - 1) / 2 {
                    continue;
                }
                judge(sc, 1, f, "the password-related string of a server's session", rep);
                if hit {
                    break;
                }
            }
            if !sc.publics.is_empty() {
                for s in sequences(sc.publics.len(), 2) {
                    let (st, x, _, yb) = at.serve(b * ks["r"], r)?;
                    let val = |n: &str| match n {
                        "ssid" => at.ssid.clone(),
                        "ci" => at.ci.clone(),
                        "user" => at.user.clone(),
                        "X" => x.compress().to_bytes().to_vec(),
                        "W" => at.w.compress().to_bytes().to_vec(),
                        _ => at.salt.clone().into_bytes(),
                    };
                    let vals: Vec<Bytes> = s.iter().map(|i| val(&sc.publics[*i])).collect();
                    let y = rnd(r);
                    // the base point in place of the empty sequence
                    let g = if s.is_empty() { b } else { wide(&vals.iter().map(|v| &v[..]).collect::<Vec<_>>()).0 };
                    let key = st.implicit_auth(g * y).ok()?;
                    let names: Vec<&str> = s.iter().map(|i| &sc.publics[*i][..]).collect();
                    let f = (key.to_vec() == at.key(&(yb * y))).then(|| format!("H1({})", names.join(" | ")));
                    judge(sc, 1, f, "the generator of a server's session", rep);
                }
            }
        }
        "fake" | "verifier" => {
            // who holds the verifier holds the secret exponent as well
            let q = at.db.strong.get(&at.user).map(|x| x.1);
            let k = if sc.control { q.unwrap_or(Scalar::ONE) } else { ks["r"] };
            let xs = comb(&sc.msg, &els, &ks);
            els.insert("Xs", xs);
            let count = sc.coefs.len() * sc.els.len();
            for i in 0..count + count * (count - 1) / 2 {
                let (st, ya, u) = at.ask(|u| (xs, u * k), r)?;
                els.insert("U", u);
                let ps = pick(sc, &els, &ks);
                let (e, t) = nth(&ps, i);
                let y = rnd(r);
                let key = st.implicit_auth(at.gen(&e).0 * y).ok()?;
                let f = (key.to_vec() == at.key(&(ya * y))).then(|| texts(&t));
                let hit = f.is_some();
                if sc.control && !hit && i + 1 < count + count * (count - 1) / 2 {
                    continue;
                }
                judge(sc, 1, f, "the password-related string of a client's session", rep);
                if hit {
                    break;
                }
            }
            let x = xs;
            if !sc.control {
                for s in sequences(sc.publics.len(), 2) {
                    let (st, ya, _) = at.ask(|u| (xs, u * k), r)?;
                    let val = |n: &str| match n {
                        "ssid" => at.ssid.clone(),
                        "ci" => at.ci.clone(),
                        "user" => at.user.clone(),
                        "X" => x.compress().to_bytes().to_vec(),
                        "W" => at.w.compress().to_bytes().to_vec(),
                        _ => at.salt.clone().into_bytes(),
                    };
                    let vals: Vec<Bytes> = s.iter().map(|i| val(&sc.publics[*i])).collect();
                    let y = rnd(r);
                    // the base point in place of the empty sequence
                    let g = if s.is_empty() { b } else { wide(&vals.iter().map(|v| &v[..]).collect::<Vec<_>>()).0 };
                    let key = st.implicit_auth(g * y).ok()?;
                    let names: Vec<&str> = s.iter().map(|i| &sc.publics[*i][..]).collect();
                    let f = (key.to_vec() == at.key(&(ya * y))).then(|| format!("H1({})", names.join(" | ")));
                    judge(sc, 1, f, "the generator of a client's session", rep);
                }
            }
            if sc.msg.len() == 1 && !sc.control {
                for s in sequences(sc.publics.len(), 2) {
                    for tag in 0..7 {
                        let (st, ya, _) = at.ask(|u| (xs, u * ks["r"]), r)?;
                        let yb = rr * ks["r"];
                        let (st, m) = st.receive_server_pubkey(yb).ok()?;
                        let M::Auth(tb) = cm(&m) else { return None };
                        let val = |n: &str| match n {
                            "ssid" => at.ssid.clone(),
                            "Ya" => ya.compress().to_bytes().to_vec(),
                            "Yb" => yb.compress().to_bytes().to_vec(),
                            "X" => xs.compress().to_bytes().to_vec(),
                            "salt" => at.salt.clone().into_bytes(),
                            "ci" => at.ci.clone(),
                            "user" => at.user.clone(),
                            _ => tb.clone(),
                        };
                        proof(tag, &s, &sc.publics, &val, |p| st.receive_server_authenticator(p).is_ok(), "client", rep);
                    }
                }
            }
        }
        "direct" => {
            let (st, x, _, yb) = at.serve(b * ks["r"], r)?;
            els.extend([("X", x), ("Yb", yb)]);
            ks.insert("h", at.gen(&(x * at.w_of(&at.pw, &at.salt))).1);
            let ya = comb(&sc.msg, &els, &ks);
            let key = st.implicit_auth(ya).ok()?.to_vec();
            let (n, f) = search(&pick(sc, &els, &ks), sc.most, |p, q| p + q, |p| at.key(p) == key);
            judge(sc, n, f, "the session key of a server", rep);
            if sc.msg.len() == 1 {
                for s in sequences(sc.publics.len(), 2) {
                    for tag in 0..7 {
                        let (st, x, _, yb) = at.serve(b * ks["r"], r)?;
                        let mut here = els.clone();
                        here.extend([("X", x), ("Yb", yb)]);
                        let ya = comb(&sc.msg, &here, &ks);
                        let st = st.receive_client_pubkey(ya).ok()?;
                        let val = |n: &str| match n {
                            "ssid" => at.ssid.clone(),
                            "Ya" => ya.compress().to_bytes().to_vec(),
                            "Yb" => yb.compress().to_bytes().to_vec(),
                            "W" => at.w.compress().to_bytes().to_vec(),
                            "X" => x.compress().to_bytes().to_vec(),
                            _ => at.salt.clone().into_bytes(),
                        };
                        proof(tag, &s, &sc.publics, &val, |p| st.receive_client_authenticator(p).is_ok(), "server", rep);
                    }
                }
            }
        }
        "guess" | "right" => {
            let (r0, q) = (rnd(r), rnd(r));
            let (st, ya, _) = at.ask(|u| (b * r0, u * q), r)?;
            let salt_of = |pw: &[u8]| if at.strong { b64((at.z(pw).0 * q).compress().as_bytes()) } else { at.salt.clone() };
            let w = at.w_of(&at.pw, &salt_of(&at.pw));
            let wg = if sc.name == "right" { w } else { at.w_of(&at.guess, &salt_of(&at.guess)) };
            let ((g, h), (g2, h2)) = (at.gen(&(b * (w * r0))), at.gen(&(b * (wg * r0))));
            els.extend([("G", g), ("G2", g2), ("Ya", ya), ("W", b * w), ("Wg", b * wg)]);
            ks.extend([("h", h), ("h2", h2), ("w", w), ("wg", wg)]);
            let key = st.implicit_auth(g2 * ks["r"]).ok()?.to_vec();
            let (n, f) = search(&pick(sc, &els, &ks), sc.most, |p, q| p + q, |p| at.key(p) == key);
            judge(sc, n, f, "the session key of a client that it gave a wrong answer to", rep);
        }
        "overheard" => {
            // the client's SSID is the one that the server hashed
            let s = at.fresh(r);
            let mut rng = at.tape.clone();
            let st = at.client.begin_prestablished_ssid(&s).ok()?;
            let sst = at.server.begin_prestablished_ssid(&s).ok()?;
            let h = TH(at.hasher);
            let (ct, svt, x) = if at.strong {
                let (st, m) = st.start_augmentation_strong(&at.user, &at.pw, &mut rng);
                let M::Strong(_, u) = cm(&m) else { return None };
                let (sst, M::SInfo { x, bs, .. }) = at.info(sst, u)? else { return None };
                (st.generate_cpace_alloc(x, bs, TP::default(), h).ok()?, sst, x)
            } else {
                let (st, _) = st.start_augmentation(&at.user, &at.pw);
                let (sst, M::Info { x, salt, .. }) = at.info(sst, b)? else { return None };
                let salt = password_hash::SaltString::from_b64(&salt).ok()?;
                (st.generate_cpace_alloc(x, &salt, TP::default(), h).ok()?, sst, x)
            };
            let (ct, m) = ct.generate_public_key(&at.ci, &mut rng);
            let M::Pub(ya) = cm(&m) else { return None };
            let (svt, m) = svt.generate_public_key(&at.ci);
            let M::Pub(yb) = sm(&m) else { return None };
            let key = ct.implicit_auth(yb).ok()?.to_vec();
            if svt.implicit_auth(ya).ok()?.to_vec() != key {
                rep.count("honest sessions without a common key");
            }
            let w = at.w_of(&at.pw, &at.salt);
            let (g, h) = at.gen(&(x * w));
            els.extend([("G", g), ("Ya", ya), ("Yb", yb), ("X", x)]);
            ks.extend([("w", w), ("h", h)]);
            let (n, f) = search(&pick(sc, &els, &ks), sc.most, |p, q| p + q, |p| at.key(p) == key);
            judge(sc, n, f, "the session key of an overheard session", rep);
            let val = |n: &str| match n {
                "ssid" => at.ssid.clone(),
                "ci" => at.ci.clone(),
                "user" => at.user.clone(),
                "pw" => at.pw.clone(),
                "Ya" => ya.compress().to_bytes().to_vec(),
                "Yb" => yb.compress().to_bytes().to_vec(),
                "X" => x.compress().to_bytes().to_vec(),
                "W" => at.w.compress().to_bytes().to_vec(),
                _ => at.salt.clone().into_bytes(),
            };
            for s in sequences(sc.publics.len(), 3) {
                let names: Vec<&str> = s.iter().map(|i| &sc.publics[*i][..]).collect();
                let vals: Vec<Bytes> = names.iter().map(|n| val(n)).collect();
                let vals: Vec<&[u8]> = vals.iter().map(|v| &v[..]).collect();
                for tag in 0..6 {
                    let h = hn::<Sha>(tag, &vals);
                    let f = if key == h {
                        Some(format!("H{tag}({})", names.join(" | ")))
                    } else if key == hn::<Sha>(5, &[&at.ssid, &h]) {
                        Some(format!("H5(ssid | H{tag}({}))", names.join(" | ")))
                    } else {
                        None
                    };
                    judge(sc, 2, f, "the session key of an overheard session", rep);
                }
            }
        }
        "another" => {
            // the same SSID, the same answers; only the generator of the client has moved on
            let s = r.bytes(20);
            let (x, q) = (b * rnd(r), rnd(r));
            let (ta, tb) = (Tape::new(&[r.u64()]), Tape::new(&[r.u64()]));
            let mut run = |t: Tape, r: &mut Prng| {
                at.client = AuCPaceClient::new(t.clone());
                at.tape = t;
                let mut t = r.clone();
                let (st, ya, _) = at.ask_with(s.clone(), |u| (x, u * q), &mut t)?;
                Some((st, ya))
            };
            let (st1, y1) = run(ta, r)?;
            let (st, ya) = run(tb, r)?;
            let yb = rr * ks["r"];
            let (key, key1) = (st.implicit_auth(yb).ok()?.to_vec(), st1.implicit_auth(yb).ok()?.to_vec());
            judge(sc, 1, (key == key1).then(|| "the key of another session".into()), "the key of a client's session", rep);
            let salt = if at.strong { b64((at.z(&at.pw).0 * q).compress().as_bytes()) } else { at.salt.clone() };
            let (g, h) = at.gen(&(x * at.w_of(&at.pw, &salt)));
            els.extend([("G", g), ("Ya", ya), ("Y1", y1), ("Yb", yb)]);
            ks.insert("h", h);
            let (n, f) = search(&pick(sc, &els, &ks), sc.most, |p, q| p + q, |p| at.key(p) == key);
            judge(sc, n, f, "the key of a client's session", rep);
        }
        _ => {
            let ((z, hz), (zg, hg)) = (at.z(&at.pw), at.z(&at.guess));
            els.extend([("Z", z), ("Zg", zg)]);
            ks.extend([("hz", hz), ("hg", hg)]);
            let us = comb(&sc.msg, &els, &ks);
            let (_, _, q, _) = at.serve(us, r)?;
            els.extend([("Us", us), ("Q", q?)]);
            // somebody with another password uses the code itself
            if !sc.control {
                let h = TH(at.hasher);
                let s = at.fresh(r);
                let st = at.client.begin_prestablished_ssid(&s).ok()?;
                let mut rng = at.tape.clone();
                let (st, m) = st.start_augmentation_strong(&at.user, &at.guess, &mut rng);
                let M::Strong(_, u) = cm(&m) else { return None };
                let sst = at.server.begin_prestablished_ssid(&s).ok()?;
                let (_, M::SInfo { x, bs, .. }) = at.info(sst, u)? else { return None };
                take_log();
                st.generate_cpace_alloc(x, bs, TP::default(), h).ok()?;
                let f = (take_log().pop()?.salt == at.salt).then(|| "what the client computes from another password".to_string());
                judge(sc, 1, f, "the salt", rep);
            }
            let (n, f) = search(&pick(sc, &els, &ks), sc.most, |p, q| p + q, |p| b64(p.compress().as_bytes()) == at.salt);
            judge(sc, n, f, "the salt of another password than the one asked for", rep);
        }
    }
    Some(())
}

/// the i-th combination of one or two
fn nth(v: &[(Pt, (Co, String))], i: usize) -> (Pt, Vec<(Co, String)>) {
    let n = v.len();
    if i < n {
        return (v[i].0, vec![v[i].1.clone()]);
    }
    let mut k = i - n;
    for a in 0..n {
        let m = n - 1 - a;
        if k < m {
            let b = a + 1 + k;
            return (v[a].0 + v[b].0, vec![v[a].1.clone(), v[b].1.clone()]);
        }
        k -= m;
    }
    panic!("no combination {i}")
}

fn proof(tag: u32, s: &[usize], names: &[String], val: &dyn Fn(&str) -> Bytes, accepts: impl FnOnce([u8; 64]) -> bool, who: &str, rep: &mut Report) {
    let vals: Vec<Bytes> = s.iter().map(|i| val(&names[*i])).collect();
    let parts: Vec<&[u8]> = vals.iter().map(|v| &v[..]).collect();
    let p: Bytes = if tag < 6 {
        hn::<Sha>(tag, &parts)
    } else {
        // no hash: the values themselves
        let mut v = parts.concat();
        v.resize(64, 0);
        v
    };
    rep.count("proofs from public values tried");
    if accepts(p.clone().try_into().unwrap()) {
        let n: Vec<&str> = s.iter().map(|i| &names[*i][..]).collect();
        rep.finding(obj! {"what" => vec![format!("AuCPace: a {who} accepts H{tag}({}) = {} as authenticator", n.join(" | "), hexs(&p))]});
    }
}

// ---------------------------------------------------------------- all

pub fn conformance(a: &Args, rep: &mut Report) {
    let proto = match a.prop.as_bytes()[0] {
        b'S' => "spake",
        b'R' => "srp",
        _ => "aucpace",
    };
    let all = scenes(a.opt("scenes").unwrap(), proto, a.num("extra", 0));
    let worlds = a.num("worlds", 1);
    rep.add("scenes", all.len() as u64);
    // the long ones are spread over the threads
    let mut jobs: Vec<(usize, usize)> = (0..worlds).flat_map(|w| (0..all.len()).map(move |i| (w, i))).collect();
    let mut r = Prng::new(&[a.seed(), 70]);
    for i in (1..jobs.len()).rev() {
        jobs.swap(i, r.below(i + 1));
    }
    let out = parallel(jobs.len(), |j, rep| {
        let (w, i) = jobs[j];
        let sc = &all[i];
        let mut r = Prng::new(&[a.seed(), 71, w as u64, i as u64]);
        rep.count("replayed");
        match proto {
            "spake" => spake(sc, &mut r, rep),
            "srp" => {
                let g = match (w + i) % 8 {
                    0 => builtin(1024),
                    k => custom([10, 12, 7, 8, 9, 13, 11][k - 1]),
                };
                match (w + i / 3) % 3 {
                    0 => srp::<Sha256>(sc, &g, &mut r, rep),
                    1 => srp::<Sha512>(sc, &g, &mut r, rep),
                    _ => srp::<sha1::Sha1>(sc, &g, &mut r, rep),
                }
            }
            _ => aucpace(sc, &mut r, rep),
        }
        if rep.samples.is_empty() {
            rep.sample(obj! {"scene" => format!("{} {} {}", sc.proto, sc.name, sc.who), "sends" => texts(&sc.msg), "knows" => sc.els.clone(),
                "after" => sc.after.clone()});
        }
    });
    rep.merge(out);
}
