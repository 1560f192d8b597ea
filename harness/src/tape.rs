//! A random generator that records what it hands out, so that the harness can tell afterwards
//! which bytes a secret was made from, however the code under test draws them.

use crate::prng::Prng;
use curve25519_dalek::scalar::Scalar;
use rand_core::{CryptoRng, Error, RngCore};
use std::sync::{Arc, Mutex};

pub struct Inner {
    prng: Prng,
    /// bytes to hand out before the generator's own
    forced: Vec<u8>,
    pub log: Vec<u8>,
    /// start offsets of the calls
    pub calls: Vec<usize>,
    /// gives nothing: an error where one can be returned, else a panic
    dry: bool,
}

#[derive(Clone)]
pub struct Tape(pub Arc<Mutex<Inner>>);

impl Tape {
    pub fn new(parts: &[u64]) -> Tape {
        Tape(Arc::new(Mutex::new(Inner {
            prng: Prng::new(parts),
            forced: Vec::new(),
            log: Vec::new(),
            calls: Vec::new(),
            dry: false,
        })))
    }
    pub fn forced(parts: &[u64], forced: &[u8]) -> Tape {
        let t = Tape::new(parts);
        t.0.lock().unwrap().forced = forced.to_vec();
        t
    }
    /// hand out these bytes next, and nothing left over from before
    pub fn force(&self, b: &[u8]) {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).forced = b.to_vec();
    }
    pub fn dry(&self, on: bool) {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).dry = on;
    }
    fn is_dry(&self) -> bool {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).dry
    }
    fn draw(&self, b: &mut [u8]) {
        assert!(!self.is_dry(), "the random generator has failed");
        let mut t = self.0.lock().unwrap_or_else(|e| e.into_inner());
        let n = t.forced.len().min(b.len());
        let head: Vec<u8> = t.forced.drain(..n).collect();
        b[..n].copy_from_slice(&head);
        t.prng.fill(&mut b[n..]);
        let at = t.log.len();
        t.calls.push(at);
        t.log.extend_from_slice(b);
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).log.len()
    }
    /// what was handed out since position `from`
    pub fn since(&self, from: usize) -> Segment {
        let t = self.0.lock().unwrap_or_else(|e| e.into_inner());
        Segment {
            at: from,
            bytes: t.log[from..].to_vec(),
            calls: t.calls[t.calls.partition_point(|c| *c < from)..].iter().map(|c| c - from).collect(),
        }
    }
}

impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.draw(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.draw(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.draw(dest);
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        if self.is_dry() {
            return Err(std::num::NonZeroU32::new(Error::CUSTOM_START + 7).unwrap().into());
        }
        self.draw(dest);
        Ok(())
    }
}

impl CryptoRng for Tape {}

/// The bytes one call of the code under test drew.
#[derive(Clone, Debug, Default)]
pub struct Segment {
    /// where on the tape it starts
    pub at: usize,
    pub bytes: Vec<u8>,
    pub calls: Vec<usize>,
}

impl Segment {
    fn offsets(&self, width: usize) -> Vec<usize> {
        if self.bytes.len() < width {
            return Vec::new();
        }
        let last = self.bytes.len() - width;
        let mut v: Vec<usize> = self.calls.iter().copied().filter(|c| *c <= last).collect();
        v.extend((0..=last).filter(|o| !self.calls.contains(o)));
        v
    }

    /// Scalars that a usual way of sampling over the full range makes of the bytes:
    /// 64 bytes reduced, 32 bytes reduced, 48 bytes reduced; aligned with the calls first.
    /// Each with the offset and width of the bytes used.
    pub fn scalars(&self) -> Vec<(Scalar, usize, usize)> {
        let mut v = Vec::new();
        for o in self.offsets(64) {
            let mut w = [0; 64];
            w.copy_from_slice(&self.bytes[o..o + 64]);
            v.push((Scalar::from_bytes_mod_order_wide(&w), o, 64));
            w.reverse();
            v.push((Scalar::from_bytes_mod_order_wide(&w), o, 64));
        }
        for o in self.offsets(48) {
            let mut w = [0; 64];
            w[..48].copy_from_slice(&self.bytes[o..o + 48]);
            v.push((Scalar::from_bytes_mod_order_wide(&w), o, 48));
        }
        for o in self.offsets(32) {
            let mut w = [0; 32];
            w.copy_from_slice(&self.bytes[o..o + 32]);
            v.push((Scalar::from_bytes_mod_order(w), o, 32));
            w[31] &= 0x1f;
            v.push((Scalar::from_bytes_mod_order(w), o, 32));
        }
        v
    }

    /// Scalars from fewer bytes than a full-range one takes.
    pub fn weak_scalars(&self) -> Vec<(Scalar, usize, usize)> {
        let mut v = Vec::new();
        for n in [31, 28, 24, 20, 16, 12, 8, 4, 2, 1] {
            for o in self.offsets(n) {
                let mut w = [0; 32];
                w[..n].copy_from_slice(&self.bytes[o..o + n]);
                v.push((Scalar::from_bytes_mod_order(w), o, n));
            }
        }
        v
    }

    /// all windows of a width, aligned with the calls first
    pub fn windows(&self, width: usize) -> Vec<(Vec<u8>, usize)> {
        self.offsets(width).into_iter().map(|o| (self.bytes[o..o + width].to_vec(), o)).collect()
    }
}
