//! minimal JSON (no dependency on serde: the harness must not disturb the crate graph of the code under test)
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(f64),
    /// integers keep their digits (seeds are 64 bit)
    I(i128),
    S(String),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}
impl J {
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn s(x: &str) -> J {
        J::S(x.to_string())
    }
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::O(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => "",
        }
    }
    pub fn int(&self) -> i128 {
        match self {
            J::I(i) => *i,
            J::N(f) => *f as i128,
            J::B(b) => *b as i128,
            _ => 0,
        }
    }
    pub fn u(&self) -> u64 {
        self.int() as u64
    }
    pub fn num(&self) -> f64 {
        match self {
            J::I(i) => *i as f64,
            J::N(f) => *f,
            _ => 0.0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(a) => a,
            _ => &[],
        }
    }
    pub fn map(&self) -> Vec<(String, J)> {
        match self {
            J::O(m) => m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
            _ => vec![],
        }
    }
    pub fn dump(&self) -> String {
        let mut o = String::new();
        self.w(&mut o, None, 0);
        o
    }
    pub fn pretty(&self) -> String {
        let mut o = String::new();
        self.w(&mut o, Some(1), 0);
        o
    }
    fn w(&self, o: &mut String, ind: Option<usize>, lvl: usize) {
        let nl = |o: &mut String, l: usize| {
            if let Some(n) = ind {
                o.push('\n');
                for _ in 0..n * l {
                    o.push(' ');
                }
            }
        };
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(f) => {
                if f.is_finite() {
                    let _ = write!(o, "{:?}", f);
                } else {
                    o.push_str("null")
                }
            }
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => esc(s, o),
            J::A(a) => {
                o.push('[');
                let scalar = a.iter().all(|x| !matches!(x, J::A(_) | J::O(_) | J::S(_)));
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if !scalar {
                        nl(o, lvl + 1);
                    }
                    x.w(o, if scalar { None } else { ind }, lvl + 1);
                }
                if !a.is_empty() && !scalar {
                    nl(o, lvl);
                }
                o.push(']');
            }
            J::O(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, lvl + 1);
                    esc(k, o);
                    o.push(':');
                    v.w(o, ind, lvl + 1);
                }
                if !m.is_empty() {
                    nl(o, lvl);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        let r = val(&b, &mut i)?;
        ws(&b, &mut i);
        if i != b.len() {
            return Err(format!("trailing data at {}", i));
        }
        Ok(r)
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1;
    }
}
fn val(b: &[char], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    if *i >= b.len() {
        return Err("eof".into());
    }
    match b[*i] {
        '{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                if b.get(*i) == Some(&'}') {
                    *i += 1;
                    return Ok(J::O(m));
                }
                let k = match val(b, i)? {
                    J::S(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, i);
                if b.get(*i) != Some(&':') {
                    return Err("colon".into());
                }
                *i += 1;
                let v = val(b, i)?;
                m.insert(k, v);
                ws(b, i);
                match b.get(*i) {
                    Some(',') => *i += 1,
                    Some('}') => {}
                    _ => return Err("obj".into()),
                }
            }
        }
        '[' => {
            *i += 1;
            let mut a = vec![];
            loop {
                ws(b, i);
                if b.get(*i) == Some(&']') {
                    *i += 1;
                    return Ok(J::A(a));
                }
                a.push(val(b, i)?);
                ws(b, i);
                match b.get(*i) {
                    Some(',') => *i += 1,
                    Some(']') => {}
                    _ => return Err("arr".into()),
                }
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            while *i < b.len() && b[*i] != '"' {
                if b[*i] == '\\' {
                    *i += 1;
                    match b.get(*i) {
                        Some('n') => s.push('\n'),
                        Some('r') => s.push('\r'),
                        Some('t') => s.push('\t'),
                        Some('b') => s.push('\u{8}'),
                        Some('f') => s.push('\u{c}'),
                        Some('u') => {
                            let h: String = b.get(*i + 1..*i + 5).ok_or("u")?.iter().collect();
                            let mut c = u32::from_str_radix(&h, 16).map_err(|_| "hex")?;
                            *i += 4;
                            if (0xd800..0xdc00).contains(&c) && b.get(*i + 1) == Some(&'\\') && b.get(*i + 2) == Some(&'u') {
                                let h: String = b.get(*i + 3..*i + 7).ok_or("u")?.iter().collect();
                                let d = u32::from_str_radix(&h, 16).map_err(|_| "hex")?;
                                c = 0x10000 + ((c - 0xd800) << 10) + (d.wrapping_sub(0xdc00) & 0x3ff);
                                *i += 6;
                            }
                            s.push(char::from_u32(c).unwrap_or('\u{fffd}'));
                        }
                        Some(c) => s.push(*c),
                        None => return Err("esc".into()),
                    }
                } else {
                    s.push(b[*i]);
                }
                *i += 1;
            }
            *i += 1;
            Ok(J::S(s))
        }
        't' => {
            *i += 4;
            Ok(J::B(true))
        }
        'f' => {
            *i += 5;
            Ok(J::B(false))
        }
        'n' => {
            *i += 4;
            Ok(J::Null)
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i].is_ascii_digit() || "+-.eE".contains(b[*i])) {
                *i += 1;
            }
            let t: String = b[st..*i].iter().collect();
            if let Ok(n) = t.parse::<i128>() {
                return Ok(J::I(n));
            }
            t.parse::<f64>().map(J::N).map_err(|_| format!("number {:?} at {}", t, st))
        }
    }
}
