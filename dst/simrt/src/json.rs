//! Minimal JSON.
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}
impl J {
    pub fn obj() -> J {
        J::Obj(BTreeMap::new())
    }
    pub fn set(mut self, k: &str, v: impl Into<J>) -> J {
        if let J::Obj(m) = &mut self {
            m.insert(k.to_string(), v.into());
        }
        self
    }
    pub fn put(&mut self, k: &str, v: impl Into<J>) {
        if let J::Obj(m) = self {
            m.insert(k.to_string(), v.into());
        }
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn i(&self) -> i64 {
        match self {
            J::Int(x) => *x as i64,
            J::Num(x) => *x as i64,
            _ => 0,
        }
    }
    pub fn u(&self) -> u64 {
        match self {
            J::Int(x) => *x as u64,
            J::Str(s) => u64::from_str_radix(s, 16).unwrap_or(0),
            _ => 0,
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn map(&self) -> Vec<(&String, &J)> {
        match self {
            J::Obj(m) => m.iter().collect(),
            _ => vec![],
        }
    }
    pub fn is_null(&self) -> bool {
        *self == J::Null
    }
    pub fn write(&self, o: &mut String, ind: usize, flat: bool) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(x) => o.push_str(&x.to_string()),
            J::Num(x) => o.push_str(&format!("{:.3}", x)),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                let simple = flat || v.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_)));
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if !simple {
                        o.push('\n');
                        o.push_str(&" ".repeat(ind + 1));
                    }
                    x.write(o, ind + 1, flat || !simple && matches!(x, J::Obj(_)));
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if !flat {
                        o.push('\n');
                        o.push_str(&" ".repeat(ind + 1));
                    }
                    J::Str(k.clone()).write(o, 0, true);
                    o.push(':');
                    v.write(o, ind + 1, flat);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self, flat: bool) -> String {
        let mut s = String::new();
        self.write(&mut s, 0, flat);
        s
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = val(b, &mut p)?;
        Ok(v)
    }
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_whitespace() {
        *p += 1;
    }
}
fn val(b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    if *p >= b.len() {
        return Err("eof".into());
    }
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                if b.get(*p) == Some(&b'}') {
                    *p += 1;
                    return Ok(J::Obj(m));
                }
                if b.get(*p) == Some(&b',') {
                    *p += 1;
                    continue;
                }
                let k = match val(b, p)? {
                    J::Str(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, p);
                if b.get(*p) != Some(&b':') {
                    return Err("colon".into());
                }
                *p += 1;
                let v = val(b, p)?;
                m.insert(k, v);
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                match b.get(*p) {
                    Some(b']') => {
                        *p += 1;
                        return Ok(J::Arr(v));
                    }
                    Some(b',') => *p += 1,
                    None => return Err("eof".into()),
                    _ => v.push(val(b, p)?),
                }
            }
        }
        b'"' => {
            *p += 1;
            let mut o = vec![];
            while *p < b.len() && b[*p] != b'"' {
                if b[*p] == b'\\' {
                    *p += 1;
                    match b[*p] {
                        b'n' => o.push(b'\n'),
                        b'u' => {
                            let h = std::str::from_utf8(&b[*p + 1..*p + 5]).map_err(|e| e.to_string())?;
                            let c = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            let mut t = [0; 4];
                            o.extend_from_slice(char::from_u32(c).unwrap_or('?').encode_utf8(&mut t).as_bytes());
                            *p += 4;
                        }
                        c => o.push(c),
                    }
                } else {
                    o.push(b[*p]);
                }
                *p += 1;
            }
            *p += 1;
            Ok(J::Str(String::from_utf8_lossy(&o).into_owned()))
        }
        b't' => {
            *p += 4;
            Ok(J::Bool(true))
        }
        b'f' => {
            *p += 5;
            Ok(J::Bool(false))
        }
        b'n' => {
            *p += 4;
            Ok(J::Null)
        }
        _ => {
            let s = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[s..*p]).unwrap();
            if let Ok(i) = t.parse::<i128>() {
                Ok(J::Int(i))
            } else {
                t.parse::<f64>().map(J::Num).map_err(|_| format!("bad number {:?}", t))
            }
        }
    }
}
impl From<i64> for J {
    fn from(x: i64) -> J {
        J::Int(x as i128)
    }
}
impl From<u64> for J {
    fn from(x: u64) -> J {
        J::Int(x as i128)
    }
}
impl From<u32> for J {
    fn from(x: u32) -> J {
        J::Int(x as i128)
    }
}
impl From<usize> for J {
    fn from(x: usize) -> J {
        J::Int(x as i128)
    }
}
impl From<f64> for J {
    fn from(x: f64) -> J {
        J::Num(x)
    }
}
impl From<bool> for J {
    fn from(x: bool) -> J {
        J::Bool(x)
    }
}
impl From<&str> for J {
    fn from(x: &str) -> J {
        J::Str(x.to_string())
    }
}
impl From<String> for J {
    fn from(x: String) -> J {
        J::Str(x)
    }
}
impl From<Vec<J>> for J {
    fn from(x: Vec<J>) -> J {
        J::Arr(x)
    }
}
