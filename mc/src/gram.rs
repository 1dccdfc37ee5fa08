//! An independent recogniser of the pattern language, written from the published grammar
//! (src/grammar/parser/pattern.rustpeg): one left-to-right pass, no backtracking.

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Item {
    Lit(String),
    Set { set: String, params: Option<Vec<(Limit, usize)>>, name: Option<String> },
    Int { params: Option<Vec<(Limit, usize)>>, name: Option<String> },
    Greedy { name: Option<String>, end: Option<String> },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Limit {
    Min,
    Max,
}

/// Why a text is not a pattern.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Bad {
    /// where the item at fault starts
    pub item: usize,
    /// no pattern starts with the text up to and including the character here
    pub first: usize,
    /// the last place an error message may point to (differs from `first` only for numbers that do not fit)
    pub last: usize,
}

struct P<'a> {
    t: &'a str,
    pos: usize,
    item: usize,
}

pub fn unescape(l: &str) -> String {
    // left to right, not overlapping
    let mut out = String::new();
    let mut rest = l;
    while !rest.is_empty() {
        if rest.as_bytes().starts_with(b"\\%\\{") {
            out.push_str("%{");
            rest = &rest[4..];
        } else {
            let c = rest.chars().next().unwrap();
            out.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    out
}

impl<'a> P<'a> {
    fn bad<T>(&self, at: usize) -> Result<T, Bad> {
        Err(Bad { item: self.item, first: at, last: at })
    }
    fn peek(&self) -> Option<char> {
        self.t[self.pos..].chars().next()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.pos += c.len_utf8();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> Result<(), Bad> {
        if self.eat(c) { Ok(()) } else { self.bad(self.pos) }
    }
    fn keyword(&mut self, words: &[&'static str]) -> Result<&'static str, Bad> {
        let rest = self.t[self.pos..].as_bytes();
        let mut far = 0;
        for w in words {
            let n = rest.iter().zip(w.bytes()).take_while(|&(a, b)| *a == b).count();
            if n == w.len() {
                self.pos += n;
                return Ok(w);
            }
            far = far.max(n);
        }
        self.bad(self.pos + far)
    }
    fn literal(&mut self) -> Option<String> {
        let rest = &self.t[self.pos..];
        let b = rest.as_bytes();
        let end = (0..b.len()).find(|&i| b[i] == b'%' && b.get(i + 1) == Some(&b'{')).unwrap_or(b.len());
        if end == 0 {
            return None;
        }
        self.pos += end;
        Some(unescape(&rest[..end]))
    }
    fn name(&mut self) -> Result<Option<String>, Bad> {
        if !self.eat(':') {
            return Ok(None);
        }
        let start = self.pos;
        let mut n = 0;
        while let Some(c) = self.peek() {
            let letter = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '.';
            let ok = letter || (n > 0 && c >= '0' && c <= '9') || (n == 1 && c == '-');
            if !ok {
                break;
            }
            self.pos += 1;
            n += 1;
        }
        if n == 0 {
            return self.bad(self.pos);
        }
        Ok(Some(self.t[start..self.pos].to_owned()))
    }
    fn param(&mut self) -> Result<(Limit, usize), Bad> {
        let k = self.keyword(&["min_len", "max_len"])?;
        self.expect('=')?;
        let start = self.pos;
        let mut value: u128 = 0;
        let mut over = None;
        while let Some(c) = self.peek() {
            if c < '0' || c > '9' {
                break;
            }
            value = value * 10 + (c as u32 - 48) as u128;
            if value > usize::max_value() as u128 {
                value = usize::max_value() as u128 + 1;
                over = over.or(Some(self.pos));
            }
            self.pos += 1;
        }
        if self.pos == start {
            return self.bad(self.pos);
        }
        if let Some(o) = over {
            return Err(Bad { item: self.item, first: o, last: self.pos });
        }
        Ok((if k == "min_len" { Limit::Min } else { Limit::Max }, value as usize))
    }
    fn blanks(&mut self) {
        while self.eat(' ') {}
    }
    /// params up to and including the closing parenthesis
    fn params(&mut self) -> Result<Vec<(Limit, usize)>, Bad> {
        let mut v = vec![];
        if self.eat(')') {
            return Ok(v);
        }
        loop {
            v.push(self.param()?);
            if self.eat(')') {
                return Ok(v);
            }
            self.expect(',')?;
            self.blanks();
        }
    }
    fn item(&mut self) -> Result<Vec<Item>, Bad> {
        match self.keyword(&["GREEDY", "INT", "SET"])? {
            "GREEDY" => {
                let name = self.name()?;
                self.expect('}')?;
                let end = self.literal();
                let mut v = vec![Item::Greedy { name, end: end.clone() }];
                v.extend(end.map(Item::Lit));
                Ok(v)
            }
            "INT" => {
                let params = if self.eat('(') { Some(self.params()?) } else { None };
                let name = self.name()?;
                self.expect('}')?;
                Ok(vec![Item::Int { params, name }])
            }
            _ => {
                self.expect('(')?;
                self.expect('"')?;
                let start = self.pos;
                while self.peek().map_or(false, |c| c != '"') {
                    self.pos += self.peek().unwrap().len_utf8();
                }
                if self.pos == start {
                    return self.bad(self.pos);
                }
                let set = self.t[start..self.pos].to_owned();
                self.expect('"')?;
                let params = if self.eat(')') {
                    None
                } else {
                    self.expect(',')?;
                    self.blanks();
                    Some(self.params()?)
                };
                let name = self.name()?;
                self.expect('}')?;
                Ok(vec![Item::Set { set, params, name }])
            }
        }
    }
}

pub fn recognise(text: &str) -> Result<Vec<Item>, Bad> {
    let mut p = P { t: text, pos: 0, item: 0 };
    if text.is_empty() {
        return p.bad(0);
    }
    let mut v = vec![];
    while p.pos < text.len() {
        p.item = p.pos;
        if text.as_bytes()[p.pos..].starts_with(b"%{") {
            p.pos += 2;
            v.extend(p.item()?);
        } else {
            v.extend(p.literal().map(Item::Lit));
        }
    }
    Ok(v)
}
