//! Parser for the values TLC prints: integers, strings, booleans, tuples and sets.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    I(i64),
    S(String),
    /// Tuple or set.
    T(Vec<V>),
}

impl V {
    pub fn i(&self) -> i64 {
        match self {
            V::I(v) => *v,
            _ => panic!("tool: integer expected in {:?}", self),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            V::S(v) => v,
            _ => panic!("tool: string expected in {:?}", self),
        }
    }
    pub fn t(&self) -> &[V] {
        match self {
            V::T(v) => v,
            _ => panic!("tool: tuple expected in {:?}", self),
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.t().iter().map(V::i).collect()
    }
}

struct P<'a> {
    s: &'a [u8],
    p: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b',') {
            self.p += 1;
        }
    }
    fn at(&self, t: &[u8]) -> bool {
        self.s[self.p..].starts_with(t)
    }
    fn val(&mut self) -> V {
        self.ws();
        if self.at(b"<<") {
            self.p += 2;
            let mut v = Vec::new();
            loop {
                self.ws();
                if self.at(b">>") {
                    self.p += 2;
                    return V::T(v);
                }
                v.push(self.val());
            }
        }
        match self.s[self.p] {
            b'{' => {
                self.p += 1;
                let mut v = Vec::new();
                loop {
                    self.ws();
                    if self.at(b"}") {
                        self.p += 1;
                        return V::T(v);
                    }
                    v.push(self.val());
                }
            }
            b'"' => {
                self.p += 1;
                let mut out = Vec::new();
                while self.s[self.p] != b'"' {
                    if self.s[self.p] == b'\\' {
                        self.p += 1;
                        out.push(match self.s[self.p] {
                            b'n' => b'\n',
                            b't' => b'\t',
                            c => c,
                        });
                    } else {
                        out.push(self.s[self.p]);
                    }
                    self.p += 1;
                }
                self.p += 1;
                V::S(String::from_utf8(out).expect("tool: utf8"))
            }
            _ => {
                let st = self.p;
                while self.p < self.s.len()
                    && !matches!(self.s[self.p], b',' | b' ' | b'>' | b'}')
                {
                    self.p += 1;
                }
                let w = std::str::from_utf8(&self.s[st..self.p]).expect("tool: utf8");
                match w {
                    "TRUE" => V::I(1),
                    "FALSE" => V::I(0),
                    _ => V::I(w.parse().unwrap_or_else(|_| panic!("tool: bad value {:?}", w))),
                }
            }
        }
    }
}

pub fn parse(s: &str) -> V {
    P { s: s.as_bytes(), p: 0 }.val()
}

/// A line TLC printed with `PrintT(ToString(..))`: a quoted, escaped string.
pub fn parse_printed(line: &str) -> Option<V> {
    let l = line.trim_end();
    if !l.starts_with("\"<<") || !l.ends_with('"') {
        return None;
    }
    let body = &l[1..l.len() - 1];
    let mut out = String::with_capacity(body.len());
    let mut esc = false;
    for c in body.chars() {
        if esc {
            // PrintT escapes once more what ToString produced.
            match c {
                '"' | '\\' => out.push(c),
                c => {
                    out.push('\\');
                    out.push(c);
                }
            }
            esc = false;
        } else if c == '\\' {
            esc = true;
        } else {
            out.push(c);
        }
    }
    Some(parse(&out))
}
