//! A small JSON value: enough to read the transitions TLC prints and to write traces.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    N,
    B(bool),
    I(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, x)| x).unwrap_or(&J::N),
            _ => &J::N,
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::I(i) => *i,
            J::B(b) => *b as i64,
            _ => panic!("TOOL: not an integer: {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("TOOL: not a string: {:?}", self),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            J::O(v) if v.is_empty() => &[],
            _ => panic!("TOOL: not an array: {:?}", self),
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|x| x.int()).collect()
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::S(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}

pub fn s(x: &str) -> J {
    J::S(x.to_string())
}
pub fn ia<I: IntoIterator<Item = i64>>(v: I) -> J {
    J::A(v.into_iter().map(J::I).collect())
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect())
}

pub fn parse(t: &str) -> J {
    let b = t.as_bytes();
    let mut p = P { b, i: 0 };
    let v = p.val();
    p.ws();
    assert!(p.i == b.len(), "TOOL: trailing JSON");
    v
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && (self.b[self.i] as char).is_whitespace() {
            self.i += 1
        }
    }
    fn val(&mut self) -> J {
        self.ws();
        match self.b[self.i] {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    match self.b[self.i] {
                        b'}' => {
                            self.i += 1;
                            return J::O(v);
                        }
                        b',' => self.i += 1,
                        _ => {
                            let k = match self.val() {
                                J::S(s) => s,
                                _ => panic!("TOOL: bad key"),
                            };
                            self.ws();
                            assert!(self.b[self.i] == b':');
                            self.i += 1;
                            v.push((k, self.val()));
                        }
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    match self.b[self.i] {
                        b']' => {
                            self.i += 1;
                            return J::A(v);
                        }
                        b',' => self.i += 1,
                        _ => v.push(self.val()),
                    }
                }
            }
            b'"' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    match self.b[self.i] {
                        b'"' => {
                            self.i += 1;
                            return J::S(String::from_utf8(v).expect("TOOL: utf8"));
                        }
                        b'\\' => {
                            self.i += 1;
                            let c = self.b[self.i];
                            v.push(match c {
                                b'n' => b'\n',
                                b't' => b'\t',
                                c => c,
                            });
                            self.i += 1;
                        }
                        c => {
                            v.push(c);
                            self.i += 1;
                        }
                    }
                }
            }
            b't' => {
                self.i += 4;
                J::B(true)
            }
            b'f' => {
                self.i += 5;
                J::B(false)
            }
            b'n' => {
                self.i += 4;
                J::N
            }
            _ => {
                let st = self.i;
                while self.i < self.b.len() && matches!(self.b[self.i], b'-' | b'0'..=b'9') {
                    self.i += 1
                }
                J::I(std::str::from_utf8(&self.b[st..self.i]).unwrap().parse().expect("TOOL: number"))
            }
        }
    }
}
