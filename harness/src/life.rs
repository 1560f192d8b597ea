//! Replays the histories of spec/Life.tla: one client or server object, or one process, that lives long.
//! Every value an operation draws is new, whatever came before, and there is none when the generator fails.

use crate::aucpace::*;
use crate::hasher::{take_log, Out, TH, TP};
use crate::json::tlc_lines;
use crate::obj;
use crate::prng::Prng;
use crate::report::{hexs, Report};
use crate::tape::Tape;
use crate::util::{guard, parallel, Args};
use ::aucpace::client::*;
use ::aucpace::server::*;
use ::spake2::{Ed25519Group, Identity, Password, Spake2};
use curve25519_dalek::scalar::Scalar;
use password_hash::SaltString;
use sha2::Sha512;
use std::collections::HashMap;

struct Op {
    op: String,
    user: String,
    what: String,
    direct: bool,
    dry: bool,
}

type Cl<const K: usize> = AuCPaceClient<Sha512, TH, Tape, K>;
type Sv<const K: usize> = AuCPaceServer<Sha512, Tape, K>;

fn scalar(r: &mut Prng) -> Scalar {
    Scalar::from_bytes_mod_order_wide(&r.bytes(64).try_into().unwrap())
}

/// the value the operation shows; nothing if it fails, which is not the matter here
fn client<const K: usize>(c: &mut Cl<K>, o: &Op, name: &[u8], rng: &Tape) -> Option<Vec<u8>> {
    let hasher = TH(if o.op == "regfail" { Out::Err(2) } else { Out::Bytes(32) });
    let par = TP("o=1".into(), None);
    let reg = |m: ClientMessage<'_, K>| match cm(&m) {
        M::Reg { salt, .. } => unb64(&salt),
        M::SReg { q, .. } => Some(q.as_bytes().to_vec()),
        _ => None,
    };
    match &o.op[..] {
        "begin" => match cm(&c.begin().1) {
            M::Nonce(n) => Some(n),
            _ => None,
        },
        "pre" => {
            let _ = c.begin_prestablished_ssid([8; 16]);
            None
        }
        "blind" => match c.begin_prestablished_ssid([8; 16]).ok()?.start_augmentation_strong(name, b"password", &mut rng.clone()).1 {
            ClientMessage::StrongUsername { blinded, .. } => Some(blinded.compress().to_bytes().to_vec()),
            _ => None,
        },
        "pub" => {
            let salt = SaltString::encode_b64(b"some salt").unwrap();
            let (s, _) = c.begin_prestablished_ssid([8; 16]).ok()?.start_augmentation(name, b"password");
            let s = s.generate_cpace_alloc(BASE, &salt, par, hasher).ok()?;
            match cm(&s.generate_public_key(b"ci", &mut rng.clone()).1) {
                M::Pub(p) => Some(p.compress().to_bytes().to_vec()),
                _ => None,
            }
        }
        "reg" => c.register_alloc(name, b"password", par, hasher).ok().and_then(reg),
        "breg" | "regfail" => c.register::<_, 100>(name, b"password", par, hasher).ok().and_then(reg),
        "sreg" => c.register_alloc_strong(name, b"password", par, hasher).ok().and_then(reg),
        "bsreg" => c.register_strong::<_, 100>(name, b"password", par, hasher).ok().and_then(reg),
        x => panic!("operation {x}"),
    }
}

fn server<const K: usize>(s: &mut Sv<K>, o: &Op, name: &[u8], rng: &Tape, db: &Db) -> Option<Vec<u8>> {
    let pt = |p: Pt| p.compress().to_bytes().to_vec();
    match &o.op[..] {
        "begin" => match sm(&s.begin().1) {
            M::Nonce(n) => Some(n),
            _ => None,
        },
        "pre" => {
            let _ = s.begin_prestablished_ssid([8; 16]);
            None
        }
        "keypair" => Some(s.generate_long_term_keypair().0.as_bytes().to_vec()),
        "info" => match sm(&s.begin_prestablished_ssid([8; 16]).ok()?.generate_client_info(name, db, rng.clone()).1) {
            M::Info { x, .. } => Some(pt(x)),
            _ => None,
        },
        "sinfo" => match sm(&s.begin_prestablished_ssid([8; 16]).ok()?.generate_client_info_strong(name, BASE, db, rng.clone()).ok()?.1) {
            M::SInfo { x, .. } => Some(pt(x)),
            _ => None,
        },
        "pub" | "fail" => {
            let (s, _) = s.begin_prestablished_ssid([8; 16]).ok()?.generate_client_info_partial_aug(name, db, rng.clone());
            let (s, m) = s.generate_public_key(b"ci");
            if o.op == "fail" {
                let _ = s.receive_client_pubkey(BASE).map(|s| s.receive_client_authenticator([1; 64]).is_ok());
                return None;
            }
            match sm(&m) {
                M::Pub(p) => Some(pt(p)),
                _ => None,
            }
        }
        // another server; its secret shows in the answer to an unknown name
        "new" => {
            let mut s = Sv::<K>::new(rng.clone());
            let other = Tape::new(&[1]);
            match sm(&s.begin_prestablished_ssid([8; 16]).ok()?.generate_client_info(name, db, other).1) {
                M::Info { salt, .. } => unb64(&salt),
                _ => None,
            }
        }
        x => panic!("operation {x}"),
    }
}

fn spake(o: &Op, name: &[u8], rng: &Tape) -> Option<Vec<u8>> {
    let (pw, a, b) = (Password::new(name), Identity::new(b"a"), Identity::new(b"b"));
    type S = Spake2<Ed25519Group>;
    let (s, m) = match &o.op[..] {
        "a" | "fail" => S::start_a_with_rng(&pw, &a, &b, rng.clone()),
        "b" => S::start_b_with_rng(&pw, &a, &b, rng.clone()),
        "s" => S::start_symmetric_with_rng(&pw, &a, rng.clone()),
        x => panic!("operation {x}"),
    };
    if o.op == "fail" {
        let _ = s.finish(&m);
        return None;
    }
    Some(m)
}

fn live<const K: usize>(who: &str, ops: &[Op], times: usize, seed: u64, rep: &mut Report) -> Vec<String> {
    let mut r = Prng::new(&[seed, 1]);
    let (tape, rng) = (Tape::new(&[seed, 2]), Tape::new(&[seed, 3]));
    let names: HashMap<&str, Vec<u8>> = [("", vec![]), ("n1", b"alice".to_vec()), ("n2", r.bytes(9))].into();
    let mut db = Db::default();
    let (w, q, x) = (scalar(&mut r), scalar(&mut r), scalar(&mut r));
    db.plain.insert(names["n1"].clone(), (BASE * w, SaltString::encode_b64(b"some salt").unwrap(), "o=1".parse().unwrap()));
    db.strong.insert(names["n1"].clone(), (BASE * w, q, "o=1".parse().unwrap()));
    db.keys.insert(names["n1"].clone(), (x, BASE * x));
    let mut c: Cl<K> = AuCPaceClient::new(tape.clone());
    let Some(mut s) = guard(|| Sv::<K>::new(tape.clone())) else { return vec![] };
    let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut bad = vec![];
    for i in 0..times * ops.len() {
        let o = &ops[i % ops.len()];
        let (at, rat) = (tape.len(), rng.len());
        let name = &names[&o.user[..]];
        tape.dry(o.dry);
        rng.dry(o.dry);
        let v = guard(|| match who {
            "client" => client(&mut c, o, name, &rng),
            "server" => server(&mut s, o, name, &rng, &db),
            _ => spake(o, name, &rng),
        });
        tape.dry(false);
        rng.dry(false);
        take_log();
        if o.dry {
            rep.count("dry_operations");
            if let Some(Some(v)) = v {
                bad.push(format!("operation {i} ({}) shows a {} although the generator failed: {}", o.op, o.what, hexs(&v)));
                break;
            }
            continue;
        }
        let Some(Some(v)) = v else { continue };
        if o.what.is_empty() || v.len() < 8 {
            continue;
        }
        rep.count("life_values");
        if let Some(j) = seen.insert(v.clone(), i) {
            bad.push(format!("the {} of operation {i} ({}) is that of operation {j} ({}): {}", o.what, o.op, ops[j % ops.len()].op, hexs(&v)));
        }
        if o.direct {
            // drawn by this very call
            let seg = tape.since(at);
            let there = match &o.what[..] {
                "nonce" | "salt" => seg.windows(v.len()).iter().any(|w| w.0 == v),
                _ => seg.scalars().iter().any(|(x, _, _)| x.as_bytes()[..] == v[..]),
            };
            if !there {
                bad.push(format!("the {} of operation {i} ({}) is not what the generator gave in that call", o.what, o.op));
            }
        } else if tape.len() == at && rng.len() == rat {
            bad.push(format!("operation {i} ({}) shows a {} and draws nothing", o.op, o.what));
        }
        if bad.len() > 2 {
            break;
        }
    }
    bad
}

pub fn conformance(a: &Args, file: &str, rep: &mut Report) {
    let lives: Vec<(String, Vec<Op>, String)> = tlc_lines(file)
        .iter()
        .map(|j| {
            let ops = j.get("ops").arr().iter().map(|h| (h.get("o"), h.get("dry").b())).map(|(o, dry)| Op {
                op: o.get("op").s().into(),
                user: o.get("user").s().into(),
                what: o.get("what").s().into(),
                direct: o.get("direct").b(),
                dry,
            });
            let ops: Vec<Op> = ops.collect();
            let text = ops.iter().map(|o| format!("{} {}{}", o.op, o.user, if o.dry { " (generator fails)" } else { "" })).collect::<Vec<_>>().join(", ");
            (j.get("who").s().into(), ops, text)
        })
        .collect();
    rep.add("lives", lives.len() as u64);
    let n = a.num("pump", 700);
    let r = parallel(lives.len(), |i, rep| {
        if rep.total_findings > 10 {
            return;
        }
        let (who, ops, text) = &lives[i];
        // what is cheap or alone goes on for longer
        let n = match (ops.len(), ops.iter().all(|o| o.op == "begin" || o.op == "pre")) {
            (_, true) if ops.iter().all(|o| !o.dry) => 70_000,
            _ if ops.iter().any(|o| o.dry) => n / 4,
            _ if who == "spake" => 4 * n,
            (1, _) => 8 * n,
            _ => n,
        };
        let times = n / ops.len();
        rep.add("life_operations", (times * ops.len()) as u64);
        let seed = a.seed().wrapping_mul(977) + i as u64;
        let bad = if i % 2 == 0 { live::<16>(who, ops, times, seed, rep) } else { live::<32>(who, ops, times, seed, rep) };
        if !bad.is_empty() {
            rep.finding(obj! {"what" => bad, "case" => obj! {"object" => who.clone(), "history" => text.clone(), "repeated" => times as u64, "seed" => seed}});
        }
    });
    rep.merge(r);
}
