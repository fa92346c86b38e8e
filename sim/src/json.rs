//! Just enough JSON: a writer and a reader for the replay files.

use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}
pub fn n(x: impl TryInto<i64>) -> J {
    J::Num(x.try_into().unwrap_or(i64::MAX) as f64)
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn num(&self) -> f64 {
        match self {
            J::Num(n) => *n,
            _ => 0.0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn render(&self) -> String {
        let mut o = String::new();
        self.w(&mut o, 0);
        o.push('\n');
        o
    }
    fn w(&self, o: &mut String, ind: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(x) => {
                if x.fract() == 0.0 && x.abs() < 9e15 {
                    let _ = write!(o, "{}", *x as i64);
                } else {
                    let _ = write!(o, "{x:.3}");
                }
            }
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 32 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                let flat = v.iter().all(|x| matches!(x, J::Num(_)));
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if !flat {
                        o.push('\n');
                        o.push_str(&" ".repeat(ind + 1));
                    }
                    x.w(o, ind + 1);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push('\n');
                    o.push_str(&" ".repeat(ind + 1));
                    J::Str(k.clone()).w(o, 0);
                    o.push_str(": ");
                    x.w(o, ind + 1);
                }
                o.push('\n');
                o.push_str(&" ".repeat(ind));
                o.push('}');
            }
        }
    }

    pub fn parse(t: &str) -> Option<J> {
        let b: Vec<char> = t.chars().collect();
        let mut i = 0;
        let v = Self::p(&b, &mut i)?;
        Some(v)
    }
    fn ws(b: &[char], i: &mut usize) {
        while *i < b.len() && b[*i].is_whitespace() {
            *i += 1
        }
    }
    fn p(b: &[char], i: &mut usize) -> Option<J> {
        Self::ws(b, i);
        match b.get(*i)? {
            '{' => {
                *i += 1;
                let mut v = Vec::new();
                loop {
                    Self::ws(b, i);
                    match b.get(*i)? {
                        '}' => {
                            *i += 1;
                            return Some(J::Obj(v));
                        }
                        ',' => *i += 1,
                        _ => {
                            let k = Self::p(b, i)?;
                            Self::ws(b, i);
                            if *b.get(*i)? != ':' {
                                return None;
                            }
                            *i += 1;
                            v.push((k.str().to_string(), Self::p(b, i)?));
                        }
                    }
                }
            }
            '[' => {
                *i += 1;
                let mut v = Vec::new();
                loop {
                    Self::ws(b, i);
                    match b.get(*i)? {
                        ']' => {
                            *i += 1;
                            return Some(J::Arr(v));
                        }
                        ',' => *i += 1,
                        _ => v.push(Self::p(b, i)?),
                    }
                }
            }
            '"' => {
                *i += 1;
                let mut s = String::new();
                loop {
                    let c = *b.get(*i)?;
                    *i += 1;
                    match c {
                        '"' => return Some(J::Str(s)),
                        '\\' => {
                            let e = *b.get(*i)?;
                            *i += 1;
                            match e {
                                'n' => s.push('\n'),
                                'r' => s.push('\r'),
                                't' => s.push('\t'),
                                'u' => {
                                    let h: String = b.get(*i..*i + 4)?.iter().collect();
                                    *i += 4;
                                    s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                                }
                                e => s.push(e),
                            }
                        }
                        c => s.push(c),
                    }
                }
            }
            't' => {
                *i += 4;
                Some(J::Bool(true))
            }
            'f' => {
                *i += 5;
                Some(J::Bool(false))
            }
            'n' => {
                *i += 4;
                Some(J::Null)
            }
            _ => {
                let st = *i;
                while *i < b.len() && (b[*i].is_ascii_digit() || "+-.eE".contains(b[*i])) {
                    *i += 1
                }
                b[st..*i].iter().collect::<String>().parse().ok().map(J::Num)
            }
        }
    }
}
