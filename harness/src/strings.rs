//! Gives bytes to the string chunks of the specification.
//!
//! A profile fixes how long the base chunks are and what they consist of.  The relation between
//! the strings of one behaviour is the specification's; the harness only checks that strings the
//! specification considers different really got different bytes.

use crate::prng::{name_seed, Prng};
use std::collections::HashMap;

pub const LENGTHS: &[usize] = &[
    1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 31, 32, 33, 39, 40, 47, 48, 49, 55, 56, 57, 63, 64,
    65, 71, 72, 73, 95, 96, 100, 111, 112, 119, 120, 126, 127, 128, 129, 130, 191, 192, 200, 254, 255,
    256, 257, 258, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025,
];

#[derive(Clone, Debug)]
pub struct Profile {
    pub seed: u64,
    pub content: usize,
    pub lens: usize,
    pub sweep: Sweep,
}

/// what a profile fixes beyond its seed: the length of one base chunk, the place of every change
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sweep {
    pub chunk: String,
    pub len: usize,
    pub pos: Option<usize>,
}

/// the name of a base chunk without its length
pub fn stem(chunk: &str) -> &str {
    let c = chunk.split('~').next().unwrap();
    c.split('#').next().unwrap()
}

pub const CONTENTS: usize = 14;
pub const LENPOL: usize = 6;

pub struct Conc {
    prng_seed: u64,
    profile: Profile,
    bases: HashMap<String, Vec<u8>>,
    /// fixed lengths asked for by the caller
    pub want: HashMap<String, usize>,
    pub max_len: usize,
}

impl Conc {
    pub fn new(profile: Profile) -> Conc {
        Conc {
            prng_seed: profile.seed,
            profile,
            bases: HashMap::new(),
            want: HashMap::new(),
            max_len: usize::MAX,
        }
    }

    pub fn seed(&self) -> u64 {
        self.prng_seed
    }

    /// set the bytes of a base chunk
    pub fn set(&mut self, name: &str, bytes: Vec<u8>) {
        self.bases.insert(name.to_string(), bytes);
    }

    fn base(&mut self, name: &str) -> Vec<u8> {
        match name {
            "nul" => return vec![0],
            "sp" => return vec![b' '],
            "nl" => return vec![b'\n'],
            "colon" => return vec![b':'],
            _ => {}
        }
        if let Some(b) = self.bases.get(name) {
            return b.clone();
        }
        // "L<n>" suffixed names ask for a length: "c#16"
        // ">" makes it the least length: "c#>17"
        let (fixed, least) = match name.split_once('#') {
            Some((_, l)) if l.starts_with('>') => (None, l[1..].parse::<usize>().unwrap()),
            Some((_, l)) => (l.parse::<usize>().ok(), 0),
            None => (None, 0),
        };
        let swept = (!self.profile.sweep.chunk.is_empty() && fixed.is_none() && self.profile.sweep.chunk == stem(name)).then_some(self.profile.sweep.len);
        let mut r = Prng::new(&[self.prng_seed, name_seed(name), 7]);
        let len = fixed.or(swept).or(self.want.get(name).copied()).unwrap_or_else(|| match self.profile.lens {
            0 => 1 + r.below(16),
            1 => *r.pick(LENGTHS),
            2 => 1 + r.below(80),
            3 => *r.pick(LENGTHS),
            4 => 1 + r.below(400),
            _ if r.chance(1, 30) => 65_530 + r.below(20),
            _ => 8,
        });
        let len = if fixed.is_some() { len } else { len.min(self.max_len).max(least) };
        let mut b = content(self.profile.content, len, &mut r);
        // distinct base chunks differ (except where too short to)
        let clash = self.bases.values().any(|x| *x == b);
        if clash && len > 0 {
            let i = r.below(len);
            b[i] = b[i].wrapping_add(1 + r.below(200) as u8);
        }
        self.bases.insert(name.to_string(), b.clone());
        b
    }

    /// the bytes of a chunk, or None if this profile cannot make the modification
    pub fn chunk(&mut self, name: &str) -> Option<Vec<u8>> {
        let mut parts = name.split('~');
        let base = parts.next().unwrap();
        let mut b = self.base(base);
        for m in parts {
            let mut r = Prng::new(&[self.prng_seed, name_seed(name), 11]);
            let n = b.len();
            if n == 0 {
                return None;
            }
            match m {
                "f" => b[0] ^= 1 << r.below(8),
                "l" => b[n - 1] ^= 1 << r.below(8),
                "m" => {
                    let i = self.profile.sweep.pos.map_or_else(|| r.below(n), |p| p % n);
                    b[i] ^= 1 << r.below(8)
                }
                "h" => {
                    let i = self.profile.sweep.pos.map_or_else(|| r.below(n), |p| p % n);
                    b[i] ^= 0x80
                }
                "inc" => b[n - 1] = b[n - 1].wrapping_add(1),
                "tr" => {
                    b.pop();
                }
                "td" => {
                    b.remove(0);
                }
                "case" => {
                    let l: Vec<usize> = (0..n).filter(|i| b[*i].is_ascii_alphabetic()).collect();
                    if l.is_empty() {
                        return None;
                    }
                    b[*r.pick(&l)] ^= 0x20;
                }
                "swap" => {
                    let l: Vec<usize> = (1..n).filter(|i| b[*i] != b[*i - 1]).collect();
                    if l.is_empty() {
                        return None;
                    }
                    let i = *r.pick(&l);
                    b.swap(i, i - 1);
                }
                "up" => {
                    let u = b.to_ascii_uppercase();
                    if u == b {
                        return None;
                    }
                    b = u;
                }
                _ => panic!("chunk modification {m}"),
            }
        }
        Some(b)
    }

    pub fn string(&mut self, chunks: &[String]) -> Option<Vec<u8>> {
        let mut v = Vec::new();
        for c in chunks {
            v.extend_from_slice(&self.chunk(c)?);
        }
        Some(v)
    }
}

pub fn content(kind: usize, len: usize, r: &mut Prng) -> Vec<u8> {
    let ascii = |r: &mut Prng, set: &[u8], len: usize| (0..len).map(|_| *r.pick(set)).collect::<Vec<u8>>();
    match kind {
        0 => r.bytes(len),
        1 => ascii(r, b"abcdefghijklmnopqrstuvwxyz", len),
        2 => (0..len).map(|_| 0x20 + r.below(95) as u8).collect(),
        3 => ascii(r, b"0123456789", len),
        4 => vec![b'a' + r.below(26) as u8; len],
        5 => vec![0; len],
        6 => {
            // valid UTF-8 with characters of several bytes
            let mut v = Vec::new();
            let chars = ['é', 'ß', '\u{a0}', '€', '漢', '\u{200b}', '😀', 'e', '\u{301}', 'Å', 'ﬁ'];
            while v.len() < len {
                let mut t = [0u8; 4];
                let s = r.pick(&chars).encode_utf8(&mut t).as_bytes().to_vec();
                if v.len() + s.len() <= len {
                    v.extend_from_slice(&s);
                } else {
                    v.push(b'z');
                }
            }
            v
        }
        7 => vec![0xff; len],
        8 => {
            // leading zero bytes
            let mut v = r.bytes(len);
            let z = 1 + r.below(3);
            for b in v.iter_mut().take(z) {
                *b = 0;
            }
            v
        }
        9 => {
            // trailing zero bytes, blanks and line ends
            let mut v = ascii(r, b"abcdefXYZ", len);
            let e = *r.pick(&[0u8, b' ', b'\n', b'\r', b'\t', b'=']);
            let n = v.len();
            if n > 0 {
                v[n - 1] = e;
                if n > 1 && r.chance(1, 2) {
                    v[n - 2] = e;
                }
            }
            v
        }
        10 => ascii(r, b"ab:", len),
        11 => ascii(r, b"AbCdEfGh", len),
        12 => (0..len).map(|_| 0x80 | r.below(128) as u8).collect(),
        _ => ascii(r, b"user@example.com:$%\\\"'/", len),
    }
}

/// the n-th profile of a run: all contents come up before length policies repeat
pub fn profile(seed: u64, n: usize) -> Profile {
    Profile { seed: seed.wrapping_mul(1_000_003).wrapping_add(n as u64), content: n % CONTENTS, lens: (n / CONTENTS + n) % LENPOL, sweep: Sweep::default() }
}

/// Sweeps over the lengths of each base chunk, and over the places of a change within one:
/// which behaviour (of those given by their strings that are of interest) to replay with what sweep.
pub fn sweeps(seed: u64, behs: &[&Vec<Vec<String>>], reps: usize, only: impl Fn(usize) -> bool) -> Vec<(usize, Sweep)> {
    use std::collections::BTreeMap;
    #[derive(Default)]
    struct Of {
        plain: Vec<usize>,
        changed: Vec<usize>,
        placed: Vec<usize>,
    }
    let mut of: BTreeMap<String, Of> = BTreeMap::new();
    for (i, b) in behs.iter().enumerate() {
        if !only(i) {
            continue;
        }
        let mut seen: BTreeMap<&str, (bool, bool)> = BTreeMap::new();
        for c in b.iter().flatten() {
            if matches!(&c[..], "nul" | "sp" | "nl" | "colon") || c.split('~').next().unwrap().split_once('#').is_some_and(|x| !x.1.starts_with('>')) {
                continue;
            }
            let e = seen.entry(stem(c)).or_default();
            e.0 |= c.contains('~');
            e.1 |= c.ends_with("~m") || c.ends_with("~h");
        }
        for (c, (changed, placed)) in seen {
            let o = of.entry(c.to_string()).or_default();
            if changed {
                o.changed.push(i);
            } else {
                o.plain.push(i);
            }
            if placed {
                o.placed.push(i);
            }
        }
    }
    let mut lens: Vec<usize> = (1..=300).collect();
    for n in [384, 448, 512, 576, 640, 768, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536] {
        lens.extend([n - 1, n, n + 1]);
    }
    let mut r = Prng::new(&[seed, 5151]);
    let mut out = vec![];
    for (c, o) in of {
        for len in &lens {
            for k in 0..reps {
                let l = if k % 2 == 0 && !o.changed.is_empty() || o.plain.is_empty() { &o.changed } else { &o.plain };
                out.push((*r.pick(l), Sweep { chunk: c.clone(), len: *len, pos: None }));
            }
        }
        if o.placed.is_empty() {
            continue;
        }
        for len in [16, 17, 33, 64, 65, 100, 129, 200, 257] {
            for pos in 0..len {
                out.push((*r.pick(&o.placed), Sweep { chunk: c.clone(), len, pos: Some(pos) }));
            }
        }
    }
    // long strings are slow: spread them
    let n = out.len();
    for i in (1..n).rev() {
        let j = r.below(i + 1);
        out.swap(i, j);
    }
    out
}
