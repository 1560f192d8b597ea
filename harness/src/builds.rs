//! The crates as they can be built (spec/Builds.tla): sessions of the walks of spec/System.tla,
//! each by itself, in a process of a build with some features, with or without debug assertions,
//! or for another machine.  An offered step gives what it gives in the build that has everything.

use crate::engine::*;
use crate::json::J;
use crate::obj;
use crate::prng::Prng;
use crate::report::Report;
use crate::system::*;
use crate::tape::Tape;
use crate::util::{parallel, Args};
use std::collections::{BTreeMap, BTreeSet};

struct Build {
    name: String,
    cmd: Vec<String>,
    /// the steps it offers, or all
    kinds: BTreeSet<String>,
    /// the command of the build with the same features for this machine
    like: Option<Vec<String>>,
}

fn strings(j: &J) -> Vec<String> {
    j.arr().iter().map(|x| x.s().to_string()).collect()
}

fn builds(file: &str) -> Vec<Build> {
    let t = std::fs::read_to_string(file).unwrap();
    t.lines()
        .map(|l| {
            let j = J::parse(l);
            let kind = |k: &J| {
                let mut h = strings(k.get("how"));
                h.sort();
                format!("{} {}", k.get("op").s(), h.join(" "))
            };
            Build {
                name: j.get("name").s().into(),
                cmd: strings(j.get("cmd")),
                kinds: j.get("kinds").arr().iter().map(kind).collect(),
                like: if j.get("like").is_null() { None } else { Some(strings(j.get("like"))) },
            }
        })
        .collect()
}

/// what kind of step each step of a session is, as Builds.tla names them
fn kinds(s: &Script) -> Vec<String> {
    let (mut strong, mut partial) = (false, false);
    let name = |op: &str, how: &[(&str, bool)]| {
        let mut h: Vec<&str> = how.iter().filter(|x| x.1).map(|x| x.0).collect();
        h.sort();
        format!("{op} {}", h.join(" "))
    };
    s.steps
        .iter()
        .map(|x| {
            let a = &x.args;
            match &x.op[..] {
                "au.cstart" | "au.sstart" => {
                    (strong, partial) = (a[0][0] == 1, a[0][1] == 1);
                    name(&x.op, &[])
                }
                "sp.start" => name(&x.op, &[("os", a[0][0].is_ascii_uppercase())]),
                "au.reg" => name(&x.op, &[("strong", a[3] == [1]), ("alloc", a[4] == [0])]),
                "au.caug" => name(&x.op, &[("strong", strong)]),
                "au.sinfo" => name(&x.op, &[("strong", strong), ("partial", partial)]),
                "au.ccpace" => name(&x.op, &[("strong", strong), ("alloc", a[3] == [0])]),
                o => name(o, &[]),
            }
        })
        .collect()
}

/// sessions of the walks; the reference outcomes are not those of the walk
fn sessions(a: &Args, from: usize, worlds: usize, per: usize, light: bool) -> Vec<Script> {
    let all = walks(a);
    let seed = a.seed();
    let got = std::sync::Mutex::new(BTreeMap::new());
    parallel(worlds, |w, rep| {
        let w = from + w;
        let mut r = Prng::new(&[seed, 61, w as u64]);
        let tape = Tape::new(&[seed, 62, w as u64]);
        let mut e = Engine::new(&tape);
        let words = Words { style: if light { w % 2 } else { w % STYLES }, seed, given: light || w / STYLES % 2 == 1 };
        let mut out = vec![];
        for _ in 0..per {
            let walk = &all[r.below(all.len())];
            let small = light || !r.chance(1, 20);
            let v = Variant {
                au: r.below(if light { 3 } else { AUS }),
                grp: if small { 2 + r.below(GROUPS - 2) } else { r.below(GROUPS) },
                hash: r.below(HASHES),
            };
            out.extend(run(walk, &mut e, v, &words, &mut r, true, 0, rep));
        }
        got.lock().unwrap().insert(w, out);
    });
    // the order of the sessions of a walk is that of a hash table
    let mut v: Vec<Script> = got.into_inner().unwrap().into_values().flatten().collect();
    v.sort_by_cached_key(|s| s.text());
    v
}

fn compare(b: &Build, s: &Script, want: &[Outcome], got: &[Outcome], rep: &mut Report) {
    let ks = kinds(s);
    let first = ks.iter().position(|k| !b.kinds.contains(k));
    let refused = got.iter().position(|o| o.status == "unavailable");
    let upto = first.unwrap_or(ks.len());
    rep.add(&format!("steps, {}", b.name), upto as u64);
    let mut bad = vec![];
    let clean = |o: &Outcome| Outcome { status: o.status.replace([' ', '\n'], "_"), outs: o.outs.clone() };
    let x: Vec<Outcome> = want[..upto.min(want.len())].iter().map(clean).collect();
    match differs(&x, &got[..upto.min(got.len())]) {
        Some(i) => bad.push(format!(
            "step {} ({}) of a session gives {} when the crates are built with everything and {} in the build {}, on the same inputs, deliveries and random bytes",
            i + 1,
            s.steps[i.min(s.steps.len() - 1)].op,
            show(want.get(i)),
            show(got.get(i)),
            b.name
        )),
        None if refused != first => panic!("{}: step {refused:?} is not offered, the specification says {first:?}: {ks:?}", b.name),
        None if first.is_some() => rep.count("sessions that end at a step the build does not offer"),
        None => rep.count("sessions that a build has in full"),
    }
    if !bad.is_empty() {
        rep.finding(obj! {"what" => bad, "session" => readable(s), "variant" => format!("{:?}", s.v), "build" => b.name.clone(),
            "command" => b.cmd.clone(), "script" => s.text()});
    }
}

pub fn conformance(a: &Args, rep: &mut Report) {
    // a broken tree can be slow in many ways: enough findings are enough, and the quick check ends in time
    let t0 = std::time::Instant::now();
    let within = |secs: u64| a.thorough() || t0.elapsed().as_secs() < secs;
    let found = std::sync::atomic::AtomicU64::new(0);
    let enough = || found.load(std::sync::atomic::Ordering::Relaxed) >= 24;
    let all = builds(a.opt("builds").unwrap());
    let me = std::env::current_exe().unwrap().to_str().unwrap().to_string();
    let full = [me, "alone".into(), "x".into()];
    let native: Vec<&Build> = all.iter().filter(|b| b.like.is_none()).collect();
    let machines: Vec<&Build> = all.iter().filter(|b| b.like.is_some()).collect();

    let scripts = sessions(a, 0, a.num("worlds", 48), a.num("per", 5), false);
    let out = parallel(scripts.len(), |i, rep| {
        if enough() || !within(240) {
            return rep.count("sessions left out");
        }
        let before = rep.total_findings;
        let s = &scripts[i];
        rep.count("replayed");
        let want = match run_by(&full, &[s]) {
            Ok(mut w) => w.remove(0),
            Err(e) => return rep.finding(obj! {"what" => vec![format!("the session by itself ended its process: {e}")], "script" => s.text()}),
        };
        for b in &native {
            match run_by(&b.cmd, &[s]) {
                Ok(g) => compare(b, s, &want, &g[0], rep),
                Err(e) => rep.finding(obj! {"what" => vec![format!("the build {} ended its process: {e}", b.name)],
                    "session" => readable(s), "command" => b.cmd.clone(), "script" => s.text()}),
            }
        }
        found.fetch_add(rep.total_findings - before, std::sync::atomic::Ordering::Relaxed);
    });
    rep.merge(out);
    if rep.total_findings > 0 {
        return;
    }

    // other machines: one session of each sort, several in one process, compared with the same on this machine
    if machines.is_empty() {
        return;
    }
    let mut sorts: BTreeMap<String, Vec<Script>> = BTreeMap::new();
    for s in sessions(a, 10_000, 48, 4, true) {
        let known = kinds(&s).iter().all(|k| machines[0].kinds.contains(k));
        if known && s.text().len() < 8000 {
            sorts.entry(format!("{:?}{}", kinds(&s), s.v.hash)).or_default().push(s);
        }
    }
    rep.add("sorts of sessions for other machines", sorts.len() as u64);
    let mut r = Prng::new(&[a.seed(), 63]);
    let mut pool: Vec<Script> = vec![];
    let most = a.num("machine-sessions", 64);
    // the long ones first, then one of each sort in turn
    let mut keys: Vec<&String> = sorts.keys().collect();
    keys.sort_by_cached_key(|k| (std::cmp::Reverse(sorts[*k][0].steps.len()), r.u64()));
    for round in 0.. {
        let before = pool.len();
        for k in &keys {
            if let Some(s) = sorts[*k].get(round) {
                if pool.len() < most {
                    pool.push(s.clone());
                }
            }
        }
        if pool.len() == before {
            break;
        }
    }
    let size = a.num("batch", 2);
    let batches: Vec<Vec<&Script>> = pool.chunks(size).map(|c| c.iter().collect()).collect();
    let out = parallel_each(batches.len() * machines.len(), |i, rep| {
        if enough() || !within(330) {
            return rep.count("batches left out");
        }
        let (c, m) = (&batches[i / machines.len()], machines[i % machines.len()]);
        let want = run_by(m.like.as_ref().unwrap(), c);
        let got = run_by(&m.cmd, c);
        match (want, got) {
            (Ok(w), Ok(g)) if g.len() == c.len() => {
                for (j, s) in c.iter().enumerate() {
                    rep.count("sessions on another machine");
                    compare(m, s, &w[j], &g[j], rep);
                }
            }
            // what Miri cannot do says nothing about the code
            (_, Err(e)) if e.contains("unsupported operation") => rep.count("batches that Miri cannot run"),
            (w, g) => rep.finding(obj! {"what" => vec![format!("the machine {} did not run sessions to their end: {:?} {:?}", m.name, g.err(), w.err())],
                "command" => m.cmd.clone(), "script" => c.iter().map(|s| s.text()).collect::<Vec<_>>().join("=\n")}),
        }
        found.fetch_add(rep.total_findings, std::sync::atomic::Ordering::Relaxed);
    });
    rep.merge(out);
}

/// as parallel, for few and long jobs
fn parallel_each(n: usize, f: impl Fn(usize, &mut Report) + Sync) -> Report {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let total = std::sync::Mutex::new(Report::default());
    std::thread::scope(|s| {
        for _ in 0..crate::util::threads() {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= n {
                    break;
                }
                let mut r = Report::default();
                f(i, &mut r);
                total.lock().unwrap().merge(r);
            });
        }
    });
    total.into_inner().unwrap()
}
