//! A small JSON reader and writer (no dependency that could disturb the lock file).

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, x)| x).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("not a string: {self:?}"),
        }
    }
    pub fn n(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            J::Bool(b) => *b as i64,
            _ => panic!("not a number: {self:?}"),
        }
    }
    pub fn b(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            // TLC prints an empty function or sequence as []; records never come empty
            J::Null => &[],
            _ => panic!("not an array: {self:?}"),
        }
    }
    pub fn strs(&self) -> Vec<String> {
        self.arr().iter().map(|x| x.s().to_string()).collect()
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn parse(text: &str) -> J {
        let mut p = P { b: text.as_bytes(), i: 0 };
        let v = p.value();
        p.ws();
        assert!(p.i == p.b.len(), "trailing JSON input");
        v
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(&n.to_string()),
            J::Str(s) => write_str(s, o),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write_str(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}

impl From<i64> for J {
    fn from(n: i64) -> J {
        J::Num(n)
    }
}
impl From<&str> for J {
    fn from(s: &str) -> J {
        J::Str(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::Str(s)
    }
}
impl From<usize> for J {
    fn from(n: usize) -> J {
        J::Num(n as i64)
    }
}
impl From<u64> for J {
    fn from(n: u64) -> J {
        J::Num(n as i64)
    }
}
impl From<bool> for J {
    fn from(b: bool) -> J {
        J::Bool(b)
    }
}
impl From<Vec<J>> for J {
    fn from(v: Vec<J>) -> J {
        J::Arr(v)
    }
}
impl From<Vec<String>> for J {
    fn from(v: Vec<String>) -> J {
        J::Arr(v.into_iter().map(J::Str).collect())
    }
}

#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => {
        $crate::json::J::Obj(vec![$(($k.to_string(), $crate::json::J::from($v))),*])
    };
}

fn write_str(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn value(&mut self) -> J {
        self.ws();
        match self.b[self.i] {
            b'{' => {
                self.i += 1;
                let mut v = Vec::new();
                loop {
                    self.ws();
                    match self.b[self.i] {
                        b'}' => {
                            self.i += 1;
                            return J::Obj(v);
                        }
                        b',' => self.i += 1,
                        _ => {
                            let k = self.string();
                            self.ws();
                            assert!(self.b[self.i] == b':');
                            self.i += 1;
                            let x = self.value();
                            v.push((k, x));
                        }
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                loop {
                    self.ws();
                    match self.b[self.i] {
                        b']' => {
                            self.i += 1;
                            return J::Arr(v);
                        }
                        b',' => self.i += 1,
                        _ => v.push(self.value()),
                    }
                }
            }
            b'"' => J::Str(self.string()),
            b't' => {
                self.i += 4;
                J::Bool(true)
            }
            b'f' => {
                self.i += 5;
                J::Bool(false)
            }
            b'n' => {
                self.i += 4;
                J::Null
            }
            _ => {
                let s = self.i;
                while self.i < self.b.len()
                    && matches!(self.b[self.i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9')
                {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.b[s..self.i]).unwrap();
                J::Num(t.parse::<i64>().unwrap_or_else(|_| panic!("number {t:?}")))
            }
        }
    }
    fn string(&mut self) -> String {
        assert!(self.b[self.i] == b'"', "string expected");
        self.i += 1;
        let mut o: Vec<u8> = Vec::new();
        loop {
            let c = self.b[self.i];
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(o).unwrap(),
                b'\\' => {
                    let e = self.b[self.i];
                    self.i += 1;
                    match e {
                        b'n' => o.push(b'\n'),
                        b't' => o.push(b'\t'),
                        b'r' => o.push(b'\r'),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'u' => {
                            let h = std::str::from_utf8(&self.b[self.i..self.i + 4]).unwrap();
                            let n = u32::from_str_radix(h, 16).unwrap();
                            self.i += 4;
                            let ch = char::from_u32(n).unwrap();
                            let mut t = [0u8; 4];
                            o.extend_from_slice(ch.encode_utf8(&mut t).as_bytes());
                        }
                        x => o.push(x),
                    }
                }
                c => o.push(c),
            }
        }
    }
}

/// Lines of TLC output that PrintT made from ToJson: a quoted string holding JSON.
pub fn tlc_lines(path: &str) -> Vec<J> {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    text.lines()
        .filter(|l| l.starts_with("\"[") || l.starts_with("\"{"))
        .map(|l| J::parse(J::parse(l).s()))
        .collect()
}
