//! A small JSON reader (the only input format of the analyser).
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

static NULL: J = J::Null;

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn at(&self, i: usize) -> &J {
        match self {
            J::Arr(a) => a.get(i).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn i(&self) -> i128 {
        match self {
            J::Int(i) => *i,
            J::Bool(b) => *b as i128,
            _ => 0,
        }
    }
    pub fn u(&self) -> u32 {
        self.i() as u32
    }
    pub fn opt_u(&self) -> Option<u32> {
        match self {
            J::Int(i) => Some(*i as u32),
            _ => None,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
}

pub fn parse(s: &str) -> Result<J, String> {
    let mut p = Ps { b: s.as_bytes(), i: 0 };
    let v = p.val()?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("trailing data at {}", p.i));
    }
    Ok(v)
}

struct Ps<'a> {
    b: &'a [u8],
    i: usize,
}

impl Ps<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1;
        }
    }
    fn val(&mut self) -> Result<J, String> {
        self.ws();
        match self.b.get(self.i) {
            None => Err("eof".into()),
            Some(b'{') => {
                self.i += 1;
                let mut m = BTreeMap::new();
                loop {
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(J::Obj(m));
                        }
                        Some(b',') => self.i += 1,
                        Some(b'"') => {
                            let k = self.str()?;
                            self.ws();
                            if self.b.get(self.i) != Some(&b':') {
                                return Err(format!("colon at {}", self.i));
                            }
                            self.i += 1;
                            let v = self.val()?;
                            m.insert(k, v);
                        }
                        _ => return Err(format!("object at {}", self.i)),
                    }
                }
            }
            Some(b'[') => {
                self.i += 1;
                let mut a = vec![];
                loop {
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b']') => {
                            self.i += 1;
                            return Ok(J::Arr(a));
                        }
                        Some(b',') => self.i += 1,
                        None => return Err("eof".into()),
                        _ => a.push(self.val()?),
                    }
                }
            }
            Some(b'"') => Ok(J::Str(self.str()?)),
            Some(b't') => {
                self.i += 4;
                Ok(J::Bool(true))
            }
            Some(b'f') => {
                self.i += 5;
                Ok(J::Bool(false))
            }
            Some(b'n') => {
                self.i += 4;
                Ok(J::Null)
            }
            Some(_) => {
                let st = self.i;
                while self.i < self.b.len() && matches!(self.b[self.i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.b[st..self.i]).unwrap();
                if st == self.i {
                    return Err(format!("value at {}", self.i));
                }
                if let Ok(i) = t.parse::<i128>() {
                    Ok(J::Int(i))
                } else if t.parse::<u128>().is_ok() {
                    Ok(J::Int(i128::MAX))
                } else {
                    Ok(J::Null)
                }
            }
        }
    }
    fn str(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        loop {
            match self.b.get(self.i) {
                None => return Err("eof in string".into()),
                Some(b'"') => {
                    self.i += 1;
                    return Ok(String::from_utf8_lossy(&o).into_owned());
                }
                Some(b'\\') => {
                    self.i += 1;
                    let c = self.b[self.i];
                    self.i += 1;
                    match c {
                        b'n' => o.push(b'\n'),
                        b't' => o.push(b'\t'),
                        b'r' => o.push(b'\r'),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'u' => {
                            let h = std::str::from_utf8(&self.b[self.i..self.i + 4]).unwrap();
                            let n = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            self.i += 4;
                            let ch = char::from_u32(n).unwrap_or('?');
                            let mut buf = [0; 4];
                            o.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                        }
                        c => o.push(c),
                    }
                }
                Some(&c) => {
                    o.push(c);
                    self.i += 1;
                }
            }
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn show(j: &J) -> String {
    match j {
        J::Null => "null".into(),
        J::Bool(b) => b.to_string(),
        J::Int(i) => i.to_string(),
        J::Str(s) => esc(s),
        J::Arr(a) => format!("[{}]", a.iter().map(show).collect::<Vec<_>>().join(",")),
        J::Obj(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", esc(k), show(v))).collect::<Vec<_>>().join(",")),
    }
}
