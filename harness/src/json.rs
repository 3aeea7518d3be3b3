//! Minimal JSON, enough for what TLC prints and reads.
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    /// An unordered collection: written as an array, compared without regard to order.
    Set(Vec<J>),
    O(Vec<(String, J)>),
    /// Agrees with any collection that has these elements.
    Sub(Vec<J>),
    /// A sequence of numbers of which trailing zeros do not matter.
    Pad(Vec<i64>),
    /// Could not be observed here; agrees with anything.
    Skip,
}

impl J {
    pub fn s(x: &str) -> J {
        J::S(x.to_string())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn at(&self, k: &str) -> &J {
        self.get(k).unwrap_or_else(|| panic!("harness: no field {k} in {self}"))
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("harness: not a string: {self}"),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => panic!("harness: not a number: {self}"),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::B(b) => *b,
            _ => panic!("harness: not a boolean: {self}"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) | J::Set(v) | J::Sub(v) => v,
            _ => panic!("harness: not an array: {self}"),
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|x| x.int()).collect()
    }
    pub fn set<I: IntoIterator<Item = i64>>(i: I) -> J {
        J::Set(i.into_iter().map(J::N).collect())
    }
    pub fn seq<I: IntoIterator<Item = i64>>(i: I) -> J {
        J::A(i.into_iter().map(J::N).collect())
    }

    /// `self` is what the code did, `want` what the specification says.
    pub fn agrees(&self, want: &J) -> bool {
        match (self, want) {
            (J::Skip, _) => true,
            (J::Set(a), J::A(b)) | (J::Set(a), J::Set(b)) => {
                if a.len() != b.len() {
                    return false;
                }
                let mut used = vec![false; b.len()];
                'o: for x in a {
                    for (k, y) in b.iter().enumerate() {
                        if !used[k] && x.agrees(y) {
                            used[k] = true;
                            continue 'o;
                        }
                    }
                    return false;
                }
                true
            }
            (J::Sub(a), J::A(b)) => a.iter().all(|x| b.iter().any(|y| x.agrees(y))),
            (J::Pad(a), J::A(b)) => {
                (0..a.len().max(b.len())).all(|k| match b.get(k) {
                    Some(J::N(y)) => a.get(k).copied().unwrap_or(0) == *y,
                    Some(_) => false,
                    None => a[k] == 0,
                })
            }
            (J::A(a), J::A(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.agrees(y)),
            (J::O(a), J::O(b)) => {
                a.len() == b.len()
                    && a.iter().all(|(k, x)| want.get(k).map_or(false, |y| x.agrees(y)))
            }
            // TLC prints the empty function / record as an empty array
            (J::O(a), J::A(b)) => a.is_empty() && b.is_empty(),
            (a, b) => a == b,
        }
    }
}

#[macro_export]
macro_rules! obj {
    ($($k:ident : $v:expr),* $(,)?) => {
        $crate::json::J::O(vec![$((stringify!($k).to_string(), $crate::json::J::from($v))),*])
    };
}

impl From<bool> for J {
    fn from(x: bool) -> J {
        J::B(x)
    }
}
impl From<i64> for J {
    fn from(x: i64) -> J {
        J::N(x)
    }
}
impl From<u32> for J {
    fn from(x: u32) -> J {
        J::N(x as i64)
    }
}
impl From<usize> for J {
    fn from(x: usize) -> J {
        J::N(x as i64)
    }
}
impl From<&str> for J {
    fn from(x: &str) -> J {
        J::S(x.to_string())
    }
}
impl From<String> for J {
    fn from(x: String) -> J {
        J::S(x)
    }
}
impl From<Vec<J>> for J {
    fn from(x: Vec<J>) -> J {
        J::A(x)
    }
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            J::Null => write!(f, "null"),
            J::B(b) => write!(f, "{b}"),
            J::N(n) => write!(f, "{n}"),
            J::S(s) => {
                write!(f, "\"")?;
                for c in s.chars() {
                    match c {
                        '"' => write!(f, "\\\"")?,
                        '\\' => write!(f, "\\\\")?,
                        '\n' => write!(f, "\\n")?,
                        c if (c as u32) < 32 => write!(f, "\\u{:04x}", c as u32)?,
                        c => write!(f, "{c}")?,
                    }
                }
                write!(f, "\"")
            }
            J::Skip => write!(f, "null"),
            J::Pad(v) => write!(f, "{}", J::seq(v.iter().copied())),
            J::A(v) | J::Set(v) | J::Sub(v) => {
                write!(f, "[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{x}")?;
                }
                write!(f, "]")
            }
            J::O(v) => {
                write!(f, "{{")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{}:{x}", J::S(k.clone()))?;
                }
                write!(f, "}}")
            }
        }
    }
}

pub fn parse(s: &str) -> Result<J, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i)?;
    ws(b, &mut i);
    if i != b.len() {
        return Err(format!("trailing characters at {i} in {s}"));
    }
    Ok(v)
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_whitespace() {
        *i += 1;
    }
}

fn val(b: &[u8], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    match b.get(*i) {
        Some(b'{') => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match b.get(*i) {
                    Some(b'}') => {
                        *i += 1;
                        return Ok(J::O(v));
                    }
                    Some(b',') => {
                        *i += 1;
                    }
                    Some(b'"') => {
                        let k = string(b, i)?;
                        ws(b, i);
                        if b.get(*i) != Some(&b':') {
                            return Err("expected :".into());
                        }
                        *i += 1;
                        let x = val(b, i)?;
                        v.push((k, x));
                    }
                    _ => return Err(format!("bad object at {i}")),
                }
            }
        }
        Some(b'[') => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match b.get(*i) {
                    Some(b']') => {
                        *i += 1;
                        return Ok(J::A(v));
                    }
                    Some(b',') => {
                        *i += 1;
                    }
                    None => return Err("unterminated array".into()),
                    _ => v.push(val(b, i)?),
                }
            }
        }
        Some(b'"') => Ok(J::S(string(b, i)?)),
        Some(b't') => {
            *i += 4;
            Ok(J::B(true))
        }
        Some(b'f') => {
            *i += 5;
            Ok(J::B(false))
        }
        Some(b'n') => {
            *i += 4;
            Ok(J::Null)
        }
        Some(c) if *c == b'-' || c.is_ascii_digit() => {
            let st = *i;
            *i += 1;
            while *i < b.len() && b[*i].is_ascii_digit() {
                *i += 1;
            }
            std::str::from_utf8(&b[st..*i])
                .unwrap()
                .parse()
                .map(J::N)
                .map_err(|e| format!("{e}"))
        }
        c => Err(format!("unexpected {c:?} at {i}")),
    }
}

fn string(b: &[u8], i: &mut usize) -> Result<String, String> {
    *i += 1;
    let mut out = vec![];
    while let Some(&c) = b.get(*i) {
        *i += 1;
        match c {
            b'"' => return String::from_utf8(out).map_err(|e| format!("{e}")),
            b'\\' => {
                let e = b.get(*i).copied().unwrap_or(0);
                *i += 1;
                out.push(match e {
                    b'n' => b'\n',
                    b't' => b'\t',
                    c => c,
                });
            }
            c => out.push(c),
        }
    }
    Err("unterminated string".into())
}
