//! Terms printed by the specification (module Terms).

use crate::json::J;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Debug)]
pub struct Term {
    pub k: String,
    pub v: Vec<String>,
    pub a: Vec<T>,
    /// sorted by the canonical text of the terms
    pub e: Vec<(T, i64)>,
    /// equal terms, and only those, have equal numbers
    pub id: u32,
}

pub type T = Arc<Term>;

#[derive(Default)]
pub struct Terms {
    seen: HashMap<String, T>,
}

impl Terms {
    pub fn mk(&mut self, k: &str, v: Vec<String>, a: Vec<T>, mut e: Vec<(T, i64)>) -> T {
        e.sort_by_key(|x| x.0.id);
        let mut key = String::new();
        key.push_str(k);
        for s in &v {
            key.push('|');
            key.push_str(s);
        }
        key.push('(');
        for t in &a {
            key.push_str(&t.id.to_string());
            key.push(',');
        }
        key.push(')');
        for (t, n) in &e {
            key.push_str(&format!("{}*{};", n, t.id));
        }
        if let Some(t) = self.seen.get(&key) {
            return t.clone();
        }
        let t = Arc::new(Term { k: k.to_string(), v, a, e, id: self.seen.len() as u32 });
        self.seen.insert(key, t.clone());
        t
    }
    pub fn all(&self) -> impl Iterator<Item = &T> {
        self.seen.values()
    }
    pub fn read(&mut self, j: &J) -> T {
        let v = j.get("v").strs();
        let a = j.get("a").arr().iter().map(|x| self.read(x)).collect();
        let e = j
            .get("e")
            .arr()
            .iter()
            .map(|x| (self.read(x.get("t")), x.get("n").n()))
            .collect();
        self.mk(j.get("k").s(), v, a, e)
    }
}

impl Term {
    pub fn is_none(&self) -> bool {
        self.k == "none"
    }
    pub fn show(&self) -> String {
        let mut s = self.k.clone();
        if !self.v.is_empty() {
            s.push_str(&format!("<{}>", self.v.join(",")));
        }
        if !self.a.is_empty() {
            s.push('(');
            s.push_str(&self.a.iter().map(|t| t.show()).collect::<Vec<_>>().join(", "));
            s.push(')');
        }
        if !self.e.is_empty() {
            s.push('{');
            s.push_str(
                &self
                    .e
                    .iter()
                    .map(|(t, n)| if *n == 1 { t.show() } else { format!("{n}*{}", t.show()) })
                    .collect::<Vec<_>>()
                    .join(" + "),
            );
            s.push('}');
        }
        s
    }
}
