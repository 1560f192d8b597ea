//! Evaluates the expressions of spec/GroupLaws.tla with the group interface of spake2.

use crate::json::{tlc_lines, J};
use crate::obj;
use crate::prng::Prng;
use crate::report::{hexs, Report};
use crate::tape::Tape;
use crate::term::Terms;
use crate::util::{guard, parallel, Args};
use curve25519_dalek::constants::EIGHT_TORSION;
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity as _;
use spake2::{Ed25519Group as G, Group};
use std::collections::HashMap;

enum X {
    El(String),
    Const(String),
    Base(S),
    Mul(Box<X>, S),
    Add(Box<X>, Box<X>),
    Code(Box<X>),
}
enum S {
    Sc(String),
    Neg(Box<S>),
}

fn read_s(j: &J) -> S {
    match j.get("k").s() {
        "sc" => S::Sc(j.get("n").s().into()),
        _ => S::Neg(Box::new(read_s(j.get("s")))),
    }
}
fn read(j: &J) -> X {
    let sub = |f: &str| Box::new(read(j.get(f)));
    match j.get("k").s() {
        "el" => X::El(j.get("n").s().into()),
        "const" => X::Const(j.get("n").s().into()),
        "base" => X::Base(read_s(j.get("s"))),
        "mul" => X::Mul(sub("e"), read_s(j.get("s"))),
        "add" => X::Add(sub("e"), sub("f")),
        "code" => X::Code(sub("e")),
        k => panic!("{k}"),
    }
}
impl S {
    fn eval(&self, sc: &HashMap<&str, Scalar>) -> Scalar {
        match self {
            S::Sc(n) => sc[&n[..]],
            S::Neg(s) => G::scalar_neg(&s.eval(sc)),
        }
    }
    fn show(&self) -> String {
        match self {
            S::Sc(n) => n.clone(),
            S::Neg(s) => format!("-{}", s.show()),
        }
    }
}
impl X {
    fn eval(&self, el: &HashMap<&str, EdwardsPoint>, sc: &HashMap<&str, Scalar>) -> Option<EdwardsPoint> {
        Some(match self {
            X::El(n) => el[&n[..]],
            X::Const(n) => match &n[..] {
                "M" => G::const_m(),
                "N" => G::const_n(),
                _ => G::const_s(),
            },
            X::Base(s) => G::basepoint_mult(&s.eval(sc)),
            X::Mul(e, s) => G::scalarmult(&e.eval(el, sc)?, &s.eval(sc)),
            X::Add(e, f) => G::add(&e.eval(el, sc)?, &f.eval(el, sc)?),
            X::Code(e) => G::bytes_to_element(&G::element_to_bytes(&e.eval(el, sc)?))?,
        })
    }
    fn scalars(&self) -> bool {
        match self {
            X::El(_) | X::Const(_) => false,
            X::Base(_) | X::Mul(..) => true,
            X::Add(e, f) => e.scalars() || f.scalars(),
            X::Code(e) => e.scalars(),
        }
    }
    fn show(&self) -> String {
        match self {
            X::El(n) | X::Const(n) => n.clone(),
            X::Base(s) => format!("base({})", s.show()),
            X::Mul(e, s) => format!("mul({}, {})", e.show(), s.show()),
            X::Add(e, f) => format!("add({}, {})", e.show(), f.show()),
            X::Code(e) => format!("decode(encode({}))", e.show()),
        }
    }
}

/// a scalar: special ones with the chance to meet what special cases are made for
fn scalar(kind: usize, r: &mut Prng) -> Scalar {
    match kind {
        0 => Scalar::ZERO,
        1 => Scalar::ONE,
        2 => -Scalar::ONE,
        3 => Scalar::from(r.below(300) as u64),
        4 => -Scalar::from(r.below(300) as u64),
        5 => {
            let mut b = [0; 32];
            b[r.below(31)] = 1 << r.below(8);
            Scalar::from_bytes_mod_order(b)
        }
        6 => {
            let mut b = r.bytes(32);
            let k = r.below(32);
            b[k..].fill(0);
            Scalar::from_bytes_mod_order(b.try_into().unwrap())
        }
        7 => G::hash_to_scalar(&r.bytes(5)),
        8 => G::random_scalar(&mut Tape::new(&[r.u64()])),
        _ => Scalar::from_bytes_mod_order_wide(&r.bytes(64).try_into().unwrap()),
    }
}

pub fn conformance(a: &Args, rep: &mut Report) {
    let mut terms = Terms::default();
    let all: Vec<(X, u32)> = tlc_lines(a.opt("laws").unwrap()).iter().map(|j| (read(j.get("x")), terms.read(j.get("d")).id)).collect();
    rep.add("expressions", all.len() as u64);
    let rounds = a.num("rounds", 40);
    let seed = a.seed();
    let r = parallel(rounds, |round, rep| {
        let mut r = Prng::new(&[seed, 61, round as u64]);
        // first rounds: generic values, then special ones, then elements outside of the subgroup
        let generic = round < rounds / 4;
        let torsion = round % 4 == 3;
        let k = |r: &mut Prng| if generic { 9 } else { r.below(10) };
        let sc: HashMap<&str, Scalar> = [("x", k(&mut r)), ("y", k(&mut r))].map(|(n, k)| (n, scalar(k, &mut r))).into();
        let mut el: HashMap<&str, EdwardsPoint> = HashMap::new();
        for n in ["e", "f"] {
            let s = scalar(k(&mut r), &mut r);
            let mut p = match if generic { 3 } else { r.below(4) } {
                0 => EdwardsPoint::identity(),
                1 => G::const_m(),
                _ => curve25519_dalek::constants::ED25519_BASEPOINT_POINT * s,
            };
            if torsion {
                p += EIGHT_TORSION[r.below(8)];
            }
            el.insert(n, p);
        }
        if !generic && r.chance(1, 4) {
            let e = el["e"];
            el.insert("f", if r.chance(1, 2) { e } else { -e });
        }
        let mut by: HashMap<u32, (Vec<u8>, &X)> = HashMap::new();
        let mut of: HashMap<Vec<u8>, (u32, &X)> = HashMap::new();
        let vals = || format!("x = {}, y = {}, e = {}, f = {}", hexs(sc["x"].as_bytes()), hexs(sc["y"].as_bytes()),
            hexs(el["e"].compress().as_bytes()), hexs(el["f"].compress().as_bytes()));
        for (x, d) in &all {
            if torsion && x.scalars() {
                continue;
            }
            rep.count("evaluated");
            let v = guard(|| x.eval(&el, &sc).map(|p| G::element_to_bytes(&p)));
            let Some(Some(v)) = v else {
                rep.finding(obj! {"what" => vec![format!("{} {}, where {}", x.show(), if v.is_none() { "panics" } else { "has an encoding that is refused" }, vals())]});
                continue;
            };
            if v.len() != G::element_length() {
                rep.finding(obj! {"what" => vec![format!("{} is written in {} bytes, where {}", x.show(), v.len(), vals())]});
            }
            match by.get(d) {
                Some((o, y)) if *o != v => {
                    rep.finding(obj! {"what" => vec![format!("{} = {} but {} = {}, where {}", x.show(), hexs(&v), y.show(), hexs(o), vals())]});
                }
                Some(_) => {}
                None => {
                    by.insert(*d, (v.clone(), x));
                }
            }
            if generic {
                if let Some((o, y)) = of.insert(v.clone(), (*d, x)) {
                    if o != *d {
                        rep.finding(obj! {"what" => vec![format!("{} and {} are both {}, where {}", x.show(), y.show(), hexs(&v), vals())]});
                    }
                }
            }
            if rep.total_findings > 20 {
                return;
            }
        }
        rep.count("replayed");
    });
    rep.merge(r);
    samples(a, &all, rep);
    strings(a, rep);
}

/// few expressions, many values: scalars of all bit lengths
fn samples(a: &Args, all: &[(X, u32)], rep: &mut Report) {
    let mut by: HashMap<u32, Vec<usize>> = HashMap::new();
    for (i, (_, d)) in all.iter().enumerate() {
        by.entry(*d).or_default().push(i);
    }
    let mut classes: Vec<Vec<usize>> = by.into_values().filter(|c| c.len() > 1).collect();
    classes.sort();
    let seed = a.seed();
    let r = parallel(a.num("samples", 6000), |i, rep| {
        let mut r = Prng::new(&[seed, 63, i as u64]);
        let long = |r: &mut Prng, bits: usize| {
            // a scalar of exactly so many bits: the top one alone, all ones, or anything below it
            let mut b = [0u8; 32];
            match r.below(4) {
                0 => {}
                1 => b.fill(0xff),
                _ => b = r.bytes(32).try_into().unwrap(),
            }
            for k in 0..256 {
                if k >= bits {
                    b[k / 8] &= !(1 << (k % 8));
                } else if k + 1 == bits {
                    b[k / 8] |= 1 << (k % 8);
                }
            }
            let s = Scalar::from_bytes_mod_order(b);
            if r.chance(1, 4) { -s } else { s }
        };
        let x = long(&mut r, i % 254);
        let y = if r.chance(1, 2) { let n = r.below(254); long(&mut r, n) } else { scalar(r.below(10), &mut r) };
        let sc: HashMap<&str, Scalar> = [("x", x), ("y", y)].into();
        let el: HashMap<&str, EdwardsPoint> = ["e", "f"].map(|n| (n, match r.below(6) {
            0 => curve25519_dalek::constants::ED25519_BASEPOINT_POINT * x,
            1 => curve25519_dalek::constants::ED25519_BASEPOINT_POINT * -y,
            _ => curve25519_dalek::constants::ED25519_BASEPOINT_POINT * scalar(9, &mut r),
        })).into();
        for _ in 0..4 {
            let c = r.pick(&classes).clone();
            let mut first: Option<(Vec<u8>, &X)> = None;
            for _ in 0..5 {
                let x = &all[*r.pick(&c)].0;
                rep.count("sampled");
                let v = guard(|| x.eval(&el, &sc).map(|p| G::element_to_bytes(&p))).flatten();
                let show = |v: &Option<Vec<u8>>| v.as_ref().map_or("nothing".into(), |v| hexs(v));
                let differs = match (&v, &first) {
                    (None, _) => Some(String::new()),
                    (Some(v), Some((w, y))) if v != w => Some(format!("but {} = {}", y.show(), hexs(w))),
                    _ => None,
                };
                if let Some(d) = differs {
                    return rep.finding(obj! {"what" => vec![format!("{} = {} {d}, where x = {}, y = {}, e = {}, f = {}", x.show(), show(&v),
                        hexs(sc["x"].as_bytes()), hexs(sc["y"].as_bytes()), hexs(el["e"].compress().as_bytes()), hexs(el["f"].compress().as_bytes()))]});
                }
                first = first.or(v.map(|v| (v, x)));
            }
        }
    });
    rep.merge(r);
}

/// which strings are encodings, and scalars
fn strings(a: &Args, rep: &mut Report) {
    let seed = a.seed();
    let n = a.num("strings", 60_000);
    let r = parallel(n, |i, rep| {
        let mut r = Prng::new(&[seed, 62, i as u64]);
        let b: Vec<u8> = match i % 6 {
            0 => {
                let l = (i / 6) % 140;
                r.bytes(l)
            }
            1 => {
                let mut v = vec![*r.pick(&[0, 1, 0xff, 0x7f, 0x80]); 32];
                let k = r.below(32);
                v[k] = r.below(256) as u8;
                v
            }
            2 => {
                let mut v = vec![0xff; 32];
                v[0] = 0xe0 + r.below(32) as u8;
                v[31] = *r.pick(&[0x7f, 0xff]);
                v
            }
            3 => {
                let p = G::basepoint_mult(&scalar(r.below(10), &mut Prng::new(&[i as u64])));
                let mut v = G::element_to_bytes(&p);
                match r.below(4) {
                    0 => v.push(0),
                    1 => drop(v.pop()),
                    2 => v.insert(0, 0),
                    _ => {}
                }
                v
            }
            _ => r.bytes(32),
        };
        let want = (b.len() == 32).then(|| CompressedEdwardsY::from_slice(&b).unwrap().decompress()).flatten();
        rep.count("strings");
        match guard(|| G::bytes_to_element(&b)) {
            None => rep.finding(obj! {"what" => vec![format!("decoding {} panics", hexs(&b))]}),
            Some(p) => {
                if p != want {
                    rep.finding(obj! {"what" => vec![format!("decoding {} gives {:?} and should give {:?}", hexs(&b),
                        p.map(|p| hexs(p.compress().as_bytes())), want.map(|p| hexs(p.compress().as_bytes())))]});
                }
            }
        }
        // scalars are drawn anew, and depend on all that they are made from
        if i % 10 == 0 {
            let t = Tape::new(&[seed, i as u64]);
            let s = G::random_scalar(&mut t.clone());
            let drawn = t.since(0).bytes;
            if drawn.len() < 32 {
                return rep.finding(obj! {"what" => vec![format!("a random scalar is made from {} bytes", drawn.len())]});
            }
            let mut f = drawn.clone();
            // how the bytes become a scalar is not prescribed: of 64 all count, of 32 the top bits may not
            let k = r.below(if drawn.len() == 64 { 64 } else { 31 });
            f[k] ^= 1 << r.below(8);
            if G::random_scalar(&mut Tape::forced(&[1], &drawn)) != s {
                rep.finding(obj! {"what" => vec!["a random scalar depends on more than the generator".to_string()]});
            }
            if [32, 64].contains(&drawn.len()) && G::random_scalar(&mut Tape::forced(&[1], &f)) == s {
                rep.finding(obj! {"what" => vec![format!("a random scalar does not depend on byte {k} of the generator")]});
            }
            let l = 1 + r.below(200);
            let mut v = r.bytes(l);
            let h = G::hash_to_scalar(&v);
            if G::hash_to_scalar(&v) != h {
                rep.finding(obj! {"what" => vec![format!("the scalar of {} is not always the same", hexs(&v))]});
            }
            v[r.below(l)] ^= 1 << r.below(8);
            if G::hash_to_scalar(&v) == h || G::hash_to_scalar(&v[..l - 1]) == G::hash_to_scalar(&v) {
                rep.finding(obj! {"what" => vec![format!("the scalar of {} is that of another string", hexs(&v))]});
            }
        }
    });
    rep.merge(r);
}
