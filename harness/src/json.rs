//! A minimal JSON reader (programs) and writer helpers (observations).
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(HashMap<String, J>),
}
impl J {
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            _ => panic!("json: integer expected, got {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("json: string expected, got {:?}", self),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            _ => panic!("json: boolean expected, got {:?}", self),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|x| x.int() as u8).collect()
    }
}
pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i);
    v
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
        *i += 1
    }
}
fn val(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut m = HashMap::new();
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return J::Obj(m);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = match val(b, i) {
                    J::Str(s) => s,
                    _ => panic!("json key"),
                };
                ws(b, i);
                assert_eq!(b[*i], b':');
                *i += 1;
                let v = val(b, i);
                m.insert(k, v);
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match b[*i] {
                    b']' => {
                        *i += 1;
                        return J::Arr(v);
                    }
                    b',' => *i += 1,
                    _ => v.push(val(b, i)),
                }
            }
        }
        b'"' => {
            *i += 1;
            let mut s = String::new();
            while b[*i] != b'"' {
                if b[*i] == b'\\' {
                    *i += 1;
                }
                s.push(b[*i] as char);
                *i += 1;
            }
            *i += 1;
            J::Str(s)
        }
        b't' => {
            *i += 4;
            J::Bool(true)
        }
        b'f' => {
            *i += 5;
            J::Bool(false)
        }
        b'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1
            }
            J::Int(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap())
        }
    }
}
pub fn esc(s: &str) -> String {
    s.chars()
        .filter(|c| c.is_ascii() && !c.is_ascii_control() && *c != '"' && *c != '\\')
        .take(80)
        .collect()
}

/// A JSON string, nothing lost.
pub fn quote(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if c.is_ascii() && !c.is_ascii_control() => out.push(c),
            c => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
        }
    }
    out.push('"');
    out
}
