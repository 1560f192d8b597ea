//! Replays walks of spec/System.tla: many sessions of all protocols in one process, interleaved,
//! failing and abandoned, on several threads at once.  Afterwards every session is run by itself,
//! in a fresh process, on the inputs, deliveries and random bytes it had, and must give the same.

use crate::base::*;
use crate::engine::*;
use crate::json::{tlc_lines, J};
use crate::obj;
use crate::prng::Prng;
use crate::report::{hexs, Report};
use crate::strings::content;
use crate::tape::Tape;
use crate::util::{threads, Args};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity as _;
use ::aucpace::{Database, PartialAugDatabase, StrongDatabase};
use password_hash::SaltString;
use std::collections::HashMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- a session alone in a process

impl Script {
    /// the text and the outcomes, for the process that asked for them
    fn with_outs(&self) -> String {
        let mut s = format!("script {} {}\n{}outs\n", self.steps.len(), self.walk, self.text());
        for (o, ord) in self.outs.iter().zip(&self.ord) {
            s.push_str(&format!("{} {}", ord, o.status.replace([' ', '\n'], "_")));
            for x in &o.outs {
                s.push(' ');
                s.push_str(&hx(x));
            }
            s.push('\n');
        }
        s
    }
    fn parse_all(t: &str) -> Vec<Script> {
        let mut l = t.lines();
        let mut all = vec![];
        while let Some(h) = l.next() {
            let h: Vec<&str> = h.split(' ').collect();
            assert_eq!(h[0], "script");
            let n: usize = h[1].parse().unwrap();
            let v: Vec<&str> = l.next().unwrap().split(' ').collect();
            let steps = (0..n)
                .map(|_| {
                    let w: Vec<&str> = l.next().unwrap().split(' ').collect();
                    Step { op: w[0].into(), rng: unhx(w[1]), args: w[2..].iter().map(|x| unhx(x)).collect() }
                })
                .collect();
            assert_eq!(l.next(), Some("outs"));
            let mut s = Script {
                v: Variant { au: v[0].parse().unwrap(), grp: v[1].parse().unwrap(), hash: v[2].parse().unwrap() },
                init: unhx(v[3]),
                steps,
                outs: vec![],
                ord: vec![],
                walk: h[2].parse().unwrap(),
            };
            for _ in 0..n {
                let w: Vec<&str> = l.next().unwrap().split(' ').collect();
                s.ord.push(w[0].parse().unwrap());
                s.outs.push(Outcome { status: w[1].into(), outs: w[2..].iter().map(|x| unhx(x)).collect() });
            }
            all.push(s);
        }
        all
    }
    fn alone(&self) -> Result<Vec<Outcome>, String> {
        let me = std::env::current_exe().unwrap();
        run_by(&[me.to_str().unwrap().into(), "alone".into(), "x".into()], &[self]).map(|mut v| v.remove(0))
    }
}

/// scripts one after the other, in a process of their own
pub fn run_by(cmd: &[String], scripts: &[&Script]) -> Result<Vec<Vec<Outcome>>, String> {
    let mut c = Command::new(&cmd[0])
        .args(&cmd[1..])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let text = scripts.iter().map(|s| s.text()).collect::<Vec<_>>().join("=\n");
    // a process that ends early does not read everything
    let _ = c.stdin.take().unwrap().write_all(text.as_bytes());
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        let said = String::from_utf8_lossy(&o.stderr);
        return Err(format!("{} {}", o.status, &said.chars().take(600).collect::<String>()));
    }
    Ok(String::from_utf8_lossy(&o.stdout)
        .split("=\n")
        .map(|t| {
            t.lines()
                .map(|l| {
                    let w: Vec<&str> = l.split(' ').collect();
                    Outcome { status: w[0].into(), outs: w[1..].iter().map(|x| unhx(x)).collect() }
                })
                .collect()
        })
        .collect())
}

// ---------------------------------------------------------------- walks

pub struct Walk {
    pub evs: Vec<J>,
}

fn strs(j: &J) -> Vec<String> {
    j.strs()
}

/// bytes of the strings; worlds of one style use the same ones, so that users, passwords and
/// identities recur with different companions
pub struct Words {
    pub style: usize,
    pub seed: u64,
    /// SPAKE2 with a generator given
    pub given: bool,
}
impl Words {
    fn of(&self, chunks: &[String]) -> B {
        let mut v = vec![];
        for c in chunks {
            let n = crate::prng::name_seed(c);
            let mut r = Prng::new(&[self.seed, self.style as u64, n]);
            let long = |v: &mut B, pre: usize, r: &mut Prng| {
                v.extend(Prng::new(&[self.seed, 5]).bytes(pre));
                let k = 1 + r.below(4);
                v.extend(r.bytes(k));
            };
            match self.style {
                // short, ambiguous when joined
                0 => v.extend(match &c[..] {
                    "u1" => &b"ab"[..],
                    "u2" => b"abc",
                    "u3" => b"a",
                    "p1" => b"cd",
                    "p2" => b"d",
                    "i1" => b"i",
                    "i2" => b"ii",
                    "s" => b"salt",
                    x => x.as_bytes(),
                }),
                // all of the same length
                1 => v.extend(r.bytes(8)),
                // long with a common beginning
                2 => long(&mut v, 16, &mut r),
                3 => long(&mut v, 64, &mut r),
                4 => long(&mut v, 128, &mut r),
                _ => {
                    let n = 1 + r.below(40);
                    let k = r.below(crate::strings::CONTENTS);
                    v.extend(content(k, n, &mut r));
                }
            }
        }
        v
    }
}
pub const STYLES: usize = 8;

pub fn short(b: &[u8]) -> String {
    show_bytes(b)
}

/// one walk in an engine; the sessions' scripts if wanted
pub fn run(walk: &Walk, e: &mut Engine, v: Variant, words: &Words, r: &mut Prng, keep: bool, id0: usize, rep: &mut Report) -> Vec<Script> {
    let mut ord = 0;
    e.prepare(v, None);
    let tape = e.tape.clone();
    let k = e.au[&v.au].nonce_len();
    let mut scripts: HashMap<usize, Script> = HashMap::new();
    let mut done: Vec<Script> = vec![];
    let mut next_reg = 1000;
    // outputs by session and operation
    let mut said: HashMap<(usize, String), Vec<B>> = HashMap::new();
    let mut db = Db::default();
    let mut vdb: HashMap<B, (B, B)> = HashMap::new();
    let mut salts: HashMap<usize, B> = HashMap::new();
    let mut cfgs: HashMap<usize, B> = HashMap::new();
    let mut creds: HashMap<usize, (B, B)> = HashMap::new();
    let params: HashMap<&str, &str> = HashMap::from([("A", "ln=1,r=8,p=1"), ("B", "ln=2,r=8,p=1")]);
    for j in &walk.evs {
        let op = j.get("op").s();
        let n = j.get("s").n() as usize;
        let how = if j.get("how").is_null() { "none" } else { j.get("how").s() };
        let src = if j.get("src").is_null() { 0 } else { j.get("src").n() as usize };
        let word = |f: &str| words.of(&strs(j.get(f)));
        let heard = |o: &str| said.get(&(src, o.to_string())).cloned();
        let mangle = |b: &B, r: &mut Prng| -> B {
            let mut b = b.clone();
            if !b.is_empty() {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            b
        };
        let pt = |b: &B, how: &str, r: &mut Prng| -> B {
            match how {
                "zero" => pb(&Pt::identity()),
                "rand" => pb(&Pt::from_uniform_bytes(&r.bytes(64).try_into().unwrap())),
                _ => b.clone(),
            }
        };
        let (sop, args, id): (&str, Vec<B>, usize) = match op {
            "drop" => {
                e.forget(v, n);
                if let Some(s) = scripts.remove(&n) {
                    done.push(s);
                }
                rep.count("abandoned");
                continue;
            }
            "sp.start" => {
                let role = j.get("role").s();
                let role = if words.given { role.to_lowercase() } else { role.to_string() };
                let mut a = vec![role.into_bytes(), word("pw")];
                for i in j.get("ids").arr() {
                    a.push(words.of(&strs(i)));
                }
                ("sp.start", a, n)
            }
            "sp.finish" => {
                let Some(m) = said.get(&(src, "sp.start".into())) else { continue };
                let mut m = m[0].clone();
                match how {
                    "long" => m.push(7),
                    "tag" => m[0] ^= 0x20,
                    "junk" => {
                        m.truncate(1);
                        let mut b = r.bytes(32);
                        b[31] |= 0x80;
                        m.extend(b);
                    }
                    "rand" => {
                        let x = Scalar::from_bytes_mod_order_wide(&r.bytes(64).try_into().unwrap());
                        m.truncate(1);
                        m.extend((curve25519_dalek::constants::ED25519_BASEPOINT_POINT * x).compress().to_bytes());
                    }
                    _ => {}
                }
                ("sp.finish", vec![m], n)
            }
            "sr.reg" => {
                next_reg += 1;
                ("sr.reg", vec![word("user"), word("pw"), word("salt")], next_reg)
            }
            "sr.cstart" => {
                let len = *r.pick(&[8, 32, 64]);
                ("sr.cstart", vec![r.bytes(len), word("user"), word("pw")], n)
            }
            "sr.sstart" => {
                let Some((ver, salt)) = vdb.get(&word("user")).cloned() else { continue };
                salts.insert(n, salt);
                let len = *r.pick(&[8, 32, 64]);
                ("sr.sstart", vec![r.bytes(len), ver], n)
            }
            "sr.creply" | "sr.sreply" => {
                let o = if op == "sr.creply" { "sr.sstart" } else { "sr.cstart" };
                let Some(p) = heard(o) else { continue };
                let p = match how {
                    "zero" => group(v.grp).n.to_bytes_be(),
                    "rand" => r.bytes(p[0].len().max(1)),
                    _ => p[0].clone(),
                };
                let mut a = vec![p];
                if op == "sr.creply" {
                    a.push(salts[&src].clone());
                }
                ("sr.reply", a, n)
            }
            "sr.sverify" | "sr.cverify" => {
                let Some(p) = heard("sr.reply") else { continue };
                // the server's proof is not to be had before it has checked the client's; that does not matter here
                let p = if how == "m" { mangle(&p[0], r) } else { p[0].clone() };
                ("sr.verify", vec![p], n)
            }
            "au.reg" => {
                next_reg += 1;
                let strong = j.get("strong").b();
                (
                    "au.reg",
                    vec![word("user"), word("pw"), params[j.get("par").s()].as_bytes().to_vec(), vec![strong as u8], vec![r.below(2) as u8]],
                    next_reg,
                )
            }
            "au.key" => {
                next_reg += 1;
                ("au.key", vec![], next_reg)
            }
            "au.cstart" | "au.sstart" => {
                let c = j.get("cfg");
                let f: B = ["strong", "partial", "pre", "cexp", "sexp"].iter().map(|x| c.get(x).b() as u8).collect();
                cfgs.insert(n, f.clone());
                (if op == "au.cstart" { "au.cstart" } else { "au.sstart" }, vec![f, b"an established ssid".to_vec()], n)
            }
            "au.caug" => {
                let Some(x) = heard("au.sstart") else { continue };
                let nonce = x.first().cloned().unwrap_or_else(|| vec![0; k]);
                creds.insert(n, (word("user"), word("pw")));
                ("au.caug", vec![nonce, word("user"), word("pw")], n)
            }
            "au.sinfo" => {
                let (Some(x), Some(c)) = (heard("au.cstart"), heard("au.caug")) else { continue };
                let nonce = x.first().cloned().unwrap_or_else(|| vec![0; k]);
                let user = word("user");
                let bl = c.get(1).map(|b| pt(b, how, r)).unwrap_or_default();
                let mut a = vec![nonce, user.clone(), bl];
                a.extend(snapshot(&db, &user));
                ("au.sinfo", a, n)
            }
            "au.ccpace" => {
                let Some(i) = heard("au.sinfo") else { continue };
                ("au.ccpace", vec![pt(&i[1], how, r), i[2].clone(), i[3].clone(), vec![r.below(2) as u8]], n)
            }
            "au.pub" => ("au.pub", vec![word("ci")], n),
            "au.recv" => {
                let Some(p) = heard("au.pub") else { continue };
                ("au.recv", vec![pt(&p[0], how, r)], n)
            }
            "au.auth" => {
                // a client hears the authenticator of a server and the other way round
                let client = creds.contains_key(&n);
                let Some(x) = heard(if client { "au.auth" } else { "au.recv" }) else { continue };
                let Some(x) = x.get(client as usize) else { continue };
                if x.len() != 64 {
                    continue;
                }
                ("au.auth", vec![if how == "m" { mangle(x, r) } else { x.clone() }], n)
            }
            x => panic!("event {x}"),
        };
        let mut step = Step { op: sop.into(), args, rng: vec![] };
        let at = tape.len();
        let o = e.step(v, id, &step, &db);
        step.rng = tape.since(at).bytes;
        rep.count("steps");
        rep.count(&format!("{}: {}", step.op, o.status));
        // what registrations leave behind
        if o.status == "Ok" {
            match op {
                "sr.reg" => {
                    vdb.insert(step.args[0].clone(), (o.outs[0].clone(), step.args[2].clone()));
                }
                "au.reg" => {
                    let w = point(&o.outs[3]);
                    let Ok(par) = text(&o.outs[2]).parse() else { continue };
                    if step.args[3] == [1] {
                        db.store_verifier_strong(&o.outs[0], None, w, scalar(&o.outs[1]), par);
                    } else {
                        let Ok(salt) = SaltString::from_b64(&text(&o.outs[1])) else { continue };
                        db.store_verifier(&o.outs[0], salt, None, w, par);
                    }
                }
                "au.key" => {
                    let _ = db.store_long_term_keypair(&word("user"), scalar(&o.outs[0]), point(&o.outs[1]));
                }
                _ => {}
            }
            said.insert((id, sop.to_string()), o.outs.clone());
        }
        if keep {
            let s = scripts.entry(id).or_insert_with(|| Script { v, init: e.init[&v.au].clone(), steps: vec![], outs: vec![], ord: vec![], walk: id0 });
            s.ord.push(ord);
            ord += 1;
            s.steps.push(step);
            s.outs.push(o);
        }
    }
    // sessions left open are dropped
    for n in 1..=64 {
        e.forget(v, n);
    }
    done.extend(scripts.into_values());
    done
}

pub fn differs(a: &[Outcome], b: &[Outcome]) -> Option<usize> {
    (0..a.len().max(b.len())).find(|i| {
        let (x, y) = (a.get(*i), b.get(*i));
        match (x, y) {
            (Some(x), Some(y)) => x.status.replace([' ', '\n'], "_") != y.status || x.outs != y.outs,
            _ => true,
        }
    })
}

pub fn show(o: Option<&Outcome>) -> String {
    o.map_or("nothing".into(), |o| format!("{} {}", o.status, o.outs.iter().map(|x| hexs(x)).collect::<Vec<_>>().join(" ")))
}

pub fn readable(s: &Script) -> Vec<String> {
    let step = |x: &Step| format!("{}({}) drawing {}", x.op, x.args.iter().map(|a| short(a)).collect::<Vec<_>>().join(", "), short(&x.rng));
    s.steps.iter().map(step).collect()
}

fn judge(s: &Script, hist: usize, alone: &Mutex<HashMap<usize, Vec<Outcome>>>, n: usize, rep: &mut Report) {
    rep.count("sessions_alone");
    let bad = match s.alone() {
        Err(e) => vec![format!("the session by itself ended its process: {e}")],
        Ok(o) => match differs(&s.outs, &o) {
            None => {
                alone.lock().unwrap().insert(n, o);
                vec![]
            }
            Some(i) => {
                let st = &s.steps[i.min(s.steps.len() - 1)];
                alone.lock().unwrap().insert(n, o.clone());
                vec![format!(
                    "step {} ({}) of a session gave {} among other sessions and gives {} by itself on the same inputs, deliveries and random bytes",
                    i + 1,
                    st.op,
                    show(s.outs.get(i)),
                    show(o.get(i))
                )]
            }
        },
    };
    if !bad.is_empty() {
        rep.finding(obj! {"what" => bad, "session" => readable(s), "variant" => format!("{:?}", s.v), "sessions before" => hist});
    } else {
        rep.sample(obj! {"session" => s.steps.iter().map(|x| x.op.clone()).collect::<Vec<_>>(),
            "outcomes" => s.outs.iter().map(|x| x.status.clone()).collect::<Vec<_>>(), "sessions before" => hist});
    }
}

pub fn walks(a: &Args) -> Vec<Walk> {
    let walks: Vec<Walk> = tlc_lines(a.opt("walks").unwrap()).iter().map(|j| Walk { evs: j.get("ev").arr().to_vec() }).collect();
    assert!(!walks.is_empty());
    walks
}

pub fn conformance(a: &Args, rep: &mut Report) {
    let walks = walks(a);
    let seed = a.seed();
    let worlds = a.num("worlds", 40);
    let per = a.num("walks-per-world", 12);
    let before = AtomicUsize::new(0);
    let world = |w: usize, rep: &mut Report, every: usize| -> Vec<(usize, Script)> {
        let mut r = Prng::new(&[seed, 31, w as u64]);
        let tape = Tape::new(&[seed, 32, w as u64]);
        let mut e = Engine::new(&tape);
        let words = Words { style: w % STYLES, seed, given: w / STYLES % 2 == 1 };
        // some worlds stay with one variant, others mix them
        let one = r.chance(1, 3);
        let v0 = Variant { au: r.below(AUS), grp: r.below(GROUPS), hash: r.below(HASHES) };
        let mut all = vec![];
        for i in 0..per {
            let walk = &walks[r.below(walks.len())];
            let v = if one {
                v0
            } else {
                // the larger groups take their time
                Variant { au: r.below(AUS), grp: if r.chance(1, 12) { r.below(GROUPS) } else { 2 + r.below(GROUPS - 2) }, hash: r.below(HASHES) }
            };
            let keep = i % every == every - 1;
            let n = before.fetch_add(12, Ordering::Relaxed);
            let s = run(walk, &mut e, v, &words, &mut r, keep, n, rep);
            rep.count("replayed");
            all.extend(s.into_iter().map(|x| (n, x)));
            // one conversation with the same words under several variants in a row
            if r.chance(1, 2) {
                let c = conversation(&walks[r.below(walks.len())], 1 + r.below(6) as i64, 99);
                let regs: Vec<usize> = (0..c.evs.len()).filter(|i| c.evs[*i].get("s").n() == 0).collect();
                let one = regs.get(r.below(regs.len().max(1))).copied();
                let evs = c.evs.iter().enumerate().filter(|(i, j)| j.get("s").n() != 0 || Some(*i) == one).map(|x| x.1.clone());
                let c = Walk { evs: evs.collect() };
                for _ in 0..3 {
                    let v = Variant { grp: 2 + r.below(GROUPS - 2), au: if r.chance(1, 3) { r.below(AUS) } else { v.au }, hash: if r.chance(1, 4) { r.below(HASHES) } else { v.hash } };
                    let s = run(&c, &mut e, v, &words, &mut r, keep, n, rep);
                    all.extend(s.into_iter().map(|x| (n, x)));
                }
            }
        }
        all
    };
    // one thread first, then all at once; a long past for the last of them
    let mut scripts = vec![];
    for w in 0..4 {
        scripts.extend(world(w, rep, 1));
    }
    let par = |from: usize, n: usize, every: usize, scripts: &mut Vec<(usize, Script)>, rep: &mut Report| {
        let next = AtomicUsize::new(0);
        let total = Mutex::new((vec![], Report::default()));
        std::thread::scope(|s| {
            for _ in 0..threads() {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        let mut r = Report::default();
                        let x = world(from + i, &mut r, every);
                        let mut t = total.lock().unwrap();
                        t.0.extend(x);
                        t.1.merge(r);
                    })
                    .unwrap();
            }
        });
        let (s, r) = total.into_inner().unwrap();
        scripts.extend(s);
        rep.merge(r);
    };
    par(10, worlds, 1, &mut scripts, rep);
    par(1000, a.num("past", 150), 12, &mut scripts, rep);
    for w in 0..4 {
        scripts.extend(world(5000 + w, rep, 2));
    }
    scripts.extend(marathons(a, &walks, rep));
    let alone = Mutex::new(HashMap::new());
    let out = crate::util::parallel(scripts.len(), |i, rep| judge(&scripts[i].1, scripts[i].0, &alone, i, rep));
    rep.merge(out);
    if let Some(f) = a.opt("trace") {
        trace(f, a.num("traced", 120), &scripts, &alone.into_inner().unwrap(), rep);
    }
}

// ---------------------------------------------------------------- marathons
// One conversation of a walk, with one way to end, taken over and over by the same objects: what
// counts, fills up, locks or wraps around shows in the sessions after it.

/// the two sessions of one conversation, up to some point
fn conversation(w: &Walk, pair: i64, upto: usize) -> Walk {
    let mine = |j: &&J| {
        let s = j.get("s").n();
        s == 0 || (s + 1) / 2 == pair
    };
    let evs: Vec<J> = w.evs.iter().filter(mine).cloned().collect();
    // registrations of other protocols do not matter
    let proto = |j: &J| j.get("op").s()[..2].to_string();
    let p = evs.iter().find(|j| j.get("s").n() != 0).map(proto).unwrap_or_default();
    let mut evs: Vec<J> = evs.into_iter().filter(|j| proto(j) == p || j.get("op").s() == "drop").collect();
    // a prefix, counted in steps of the sessions
    let mut n = 0;
    if let Some(i) = evs.iter().position(|j| {
        n += (j.get("s").n() != 0) as usize;
        n > upto
    }) {
        evs.truncate(i);
    }
    Walk { evs }
}

/// what distinguishes one ending from another
fn ending(s: &[Script]) -> String {
    let mut v: Vec<String> = s
        .iter()
        .filter(|s| !s.steps[0].op.ends_with("reg") && s.steps[0].op != "au.key")
        .map(|s| {
            let fl = if s.steps[0].op.starts_with("au.") { hx(&s.steps[0].args[0][..2]) } else { String::new() };
            let first = if s.steps[0].op == "sp.start" { text(&s.steps[0].args[0]) } else { s.steps[0].op.clone() };
            format!("{first} {fl} {} {}", s.steps.last().unwrap().op, s.outs.last().unwrap().status)
        })
        .collect();
    v.sort();
    v.join(" | ")
}

/// in a process of its own: one conversation again and again, then some of everything, whose scripts are printed
pub fn marathon_here(a: &Args) {
    let lines = std::fs::read_to_string(a.opt("file").unwrap()).unwrap();
    let all: Vec<Walk> = lines.lines().map(|l| Walk { evs: J::parse(l).arr().to_vec() }).collect();
    let class = a.num("class", 0);
    let seed = a.seed();
    let budget = std::time::Duration::from_millis(a.num("budget", 1000) as u64);
    let mut r = Prng::new(&[seed, 41, class as u64]);
    let tape = Tape::new(&[seed, 42, class as u64]);
    let mut e = Engine::new(&tape);
    let v = Variant { au: class % AUS, grp: 2 + class % (GROUPS - 2), hash: class % HASHES };
    let mut rep = Report::default();
    let t = std::time::Instant::now();
    let mut n = 0usize;
    let words = Words { style: 1, seed, given: false };
    while n < a.num("times", 70_000) && t.elapsed() < budget {
        run(&all[class], &mut e, v, &words, &mut r, false, 0, &mut rep);
        n += 1;
    }
    let mut out = vec![];
    // the same users and others
    let styles = [1, 1, 1, 0, 4];
    for i in 0..a.num("after", 16) {
        let w = if i == 0 { class } else { r.below(all.len()) };
        let words = Words { style: styles[i % styles.len()], seed, given: i % 3 == 1 };
        out.extend(run(&all[w], &mut e, v, &words, &mut r, true, i, &mut rep));
    }
    let mut o = format!("{n}\n");
    for s in out {
        o.push_str(&s.with_outs());
    }
    std::io::stdout().write_all(o.as_bytes()).unwrap();
}

/// the conversations with different endings
fn endings(walks: &[Walk], seed: u64, tries: usize) -> Vec<Walk> {
    let mut r = Prng::new(&[seed, 43]);
    let words = Words { style: 1, seed, given: false };
    let mut found: std::collections::BTreeMap<String, Walk> = Default::default();
    for i in 0..tries {
        let w = &walks[r.below(walks.len())];
        let pair = 1 + r.below(6) as i64;
        let upto = if r.chance(1, 2) { 99 } else { 1 + r.below(8) };
        let c = conversation(w, pair, upto);
        if c.evs.iter().all(|j| j.get("s").n() == 0) {
            continue;
        }
        let tape = Tape::new(&[seed, 44, i as u64]);
        let mut e = Engine::new(&tape);
        let v = Variant { au: i % AUS, grp: 2 + i % (GROUPS - 2), hash: i % HASHES };
        let s = run(&c, &mut e, v, &words, &mut r, true, 0, &mut Report::default());
        if s.is_empty() {
            continue;
        }
        let k = ending(&s);
        if k.contains("unexpected") || k.contains("not applicable") {
            continue;
        }
        // the shortest way to each
        match found.get(&k) {
            Some(x) if x.evs.len() <= c.evs.len() => {}
            _ => {
                found.insert(k, c);
            }
        }
    }
    if std::env::var("VH_ENDINGS").is_ok() {
        for (k, w) in &found {
            eprintln!("{} {k}", w.evs.len());
        }
    }
    found.into_values().collect()
}

fn marathons(a: &Args, walks: &[Walk], rep: &mut Report) -> Vec<(usize, Script)> {
    let ends = endings(walks, a.seed(), a.num("tries", 1500));
    let file = format!("marathon-{}.txt", std::process::id());
    std::fs::write(&file, ends.iter().map(|w| J::Arr(w.evs.clone()).text() + "\n").collect::<String>()).unwrap();
    let found = Mutex::new(vec![]);
    let next = AtomicUsize::new(0);
    let bad = Mutex::new(Report::default());
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= ends.len() {
                    break;
                }
                let o = Command::new(std::env::current_exe().unwrap())
                    .args(["marathon", "x", "--file", &file, "--class", &i.to_string(), "--seed", &a.seed().to_string()])
                    .args(["--budget", &a.num("budget", 700).to_string(), "--after", &a.num("after", 16).to_string()])
                    .args(["--times", &a.num("times", 70_000).to_string()])
                    .stderr(Stdio::null())
                    .output();
                let mut rep = bad.lock().unwrap();
                rep.count("marathons");
                match o {
                    Ok(o) if o.status.success() => {
                        let t = String::from_utf8_lossy(&o.stdout).into_owned();
                        let (n, rest) = t.split_once('\n').unwrap();
                        let n: usize = n.parse().unwrap();
                        rep.add("marathon_conversations", n as u64);
                        let base = 1_000_000 + 1000 * i;
                        found.lock().unwrap().extend(Script::parse_all(rest).into_iter().map(|mut s| {
                            s.walk += base;
                            (n * 2, s)
                        }));
                    }
                    Ok(o) => rep.finding(obj! {"what" => vec![format!("a process that repeats one conversation ended: {}", o.status)],
                        "conversation" => J::Arr(ends[i].evs.clone())}),
                    Err(e) => panic!("{e}"),
                }
            });
        }
    });
    let _ = std::fs::remove_file(&file);
    rep.merge(bad.into_inner().unwrap());
    found.into_inner().unwrap()
}

/// Traces for SystemTrace.tla: what happened in the process, in its order, and what the same
/// sessions did alone; equal inputs and equal outcomes have equal numbers.
fn trace(file: &str, walks: usize, scripts: &[(usize, Script)], alone: &HashMap<usize, Vec<Outcome>>, rep: &mut Report) {
    let mut ids: HashMap<String, usize> = HashMap::new();
    let mut id = |s: String| {
        let n = ids.len() + 1;
        *ids.entry(s).or_insert(n) as i64
    };
    let mut by: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
    for (i, s) in scripts.iter().enumerate() {
        by.entry(s.1.walk).or_default().push(i);
    }
    // the first, the last and some in between
    let keys: Vec<usize> = by.keys().copied().collect();
    let step = (keys.len() / walks.max(1)).max(1);
    let mut out = vec![];
    for k in keys.iter().step_by(step) {
        let mut evs: Vec<(usize, J)> = vec![];
        let mut solo: Vec<J> = vec![];
        for (n, i) in by[k].iter().enumerate() {
            let s = &scripts[*i].1;
            let ins: Vec<i64> = s.steps.iter().map(|x| id(format!("{} {} {:?}", x.op, hx(&x.rng), x.args))).collect();
            for j in 0..s.steps.len() {
                let o = &s.outs[j];
                let o = id(format!("{} {:?}", o.status.replace([' ', '\n'], "_"), o.outs));
                evs.push((s.ord[j], obj! {"s" => n as i64 + 1, "i" => ins[j], "o" => o}));
            }
            let o = alone.get(i).map(|v| &v[..]).unwrap_or(&[]);
            solo.push(J::Arr(o.iter().enumerate().map(|(j, o)| {
                obj! {"i" => ins.get(j).copied().unwrap_or(0), "o" => id(format!("{} {:?}", o.status, o.outs))}
            }).collect()));
        }
        evs.sort_by_key(|x| x.0);
        rep.count("traces");
        rep.add("trace_events", evs.len() as u64);
        out.push(obj! {"ev" => evs.into_iter().map(|x| x.1).collect::<Vec<_>>(), "alone" => solo});
    }
    std::fs::write(file, J::Arr(out).text()).unwrap();
}
