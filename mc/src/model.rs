//! Reference model: a matcher is just the list of patterns added to it, a pattern is a list of tokens,
//! and every token consumes a deterministic prefix of the text. Nothing here looks at actiondb.

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Tok {
    Lit(String),
    Set { set: String, name: Option<String>, min: Option<usize>, max: Option<usize> },
    Int { name: Option<String>, min: Option<usize>, max: Option<usize> },
    Greedy { name: Option<String>, end: Option<String> },
}

pub type Tokens = Vec<Tok>;

pub fn lit(s: &str) -> Tok {
    Tok::Lit(s.to_owned())
}
pub fn set(chars: &str, name: &str) -> Tok {
    Tok::Set { set: chars.to_owned(), name: opt(name), min: None, max: None }
}
pub fn int(name: &str) -> Tok {
    Tok::Int { name: opt(name), min: None, max: None }
}
pub fn greedy(name: &str) -> Tok {
    Tok::Greedy { name: opt(name), end: None }
}
fn opt(name: &str) -> Option<String> {
    if name.is_empty() { None } else { Some(name.to_owned()) }
}

impl Tok {
    pub fn is_lit(&self) -> bool {
        matches!(*self, Tok::Lit(_))
    }
    pub fn name(&self) -> Option<&str> {
        match *self {
            Tok::Lit(_) => None,
            Tok::Set { ref name, .. } | Tok::Int { ref name, .. } | Tok::Greedy { ref name, .. } => name.as_ref().map(|s| s.as_str()),
        }
    }
    /// Number of bytes consumed at the start of `text`, or None when the token does not apply.
    pub fn consume(&self, text: &str) -> Option<usize> {
        fn run<F: Fn(char) -> bool>(text: &str, f: F, min: Option<usize>, max: Option<usize>) -> Option<usize> {
            let mut chars = 0;
            let mut bytes = 0;
            for c in text.chars() {
                if !f(c) {
                    break;
                }
                chars += 1;
                bytes += c.len_utf8();
            }
            if chars == 0 || min.map_or(false, |m| chars < m) || max.map_or(false, |m| chars > m) {
                None
            } else {
                Some(bytes)
            }
        }
        match *self {
            Tok::Lit(ref l) => if text.len() >= l.len() && text.as_bytes()[..l.len()] == *l.as_bytes() { Some(l.len()) } else { None },
            Tok::Set { ref set, min, max, .. } if set.len() > 200 && text.len() > 200 => {
                let all: ::std::collections::HashSet<char> = set.chars().collect();
                run(text, |c| all.contains(&c), min, max)
            }
            Tok::Set { ref set, min, max, .. } => run(text, |c| set.chars().any(|x| x == c), min, max),
            Tok::Int { min, max, .. } => run(text, |c| c >= '0' && c <= '9', min, max),
            Tok::Greedy { ref end, .. } => match *end {
                None => Some(text.len()),
                Some(ref e) => {
                    // first occurrence, spelled out
                    let (t, e) = (text.as_bytes(), e.as_bytes());
                    (0..t.len() + 1).find(|&i| i + e.len() <= t.len() && &t[i..i + e.len()] == e)
                }
            },
        }
    }
    /// Source text of the token in the pattern language.
    pub fn source(&self) -> String {
        fn nm(name: &Option<String>) -> String {
            name.as_ref().map_or(String::new(), |n| format!(":{}", n))
        }
        fn lim(min: &Option<usize>, max: &Option<usize>) -> Vec<String> {
            let mut v = vec![];
            if let Some(m) = *min { v.push(format!("min_len={}", m)); }
            if let Some(m) = *max { v.push(format!("max_len={}", m)); }
            v
        }
        match *self {
            Tok::Lit(ref l) => escape(l),
            Tok::Set { ref set, ref name, ref min, ref max } => {
                let l: String = lim(min, max).iter().map(|x| format!(",{}", x)).collect();
                format!("%{{SET(\"{}\"{}){}}}", set, l, nm(name))
            }
            Tok::Int { ref name, ref min, ref max } => {
                let l = lim(min, max);
                if l.is_empty() { format!("%{{INT{}}}", nm(name)) } else { format!("%{{INT({}){}}}", l.join(","), nm(name)) }
            }
            Tok::Greedy { ref name, .. } => format!("%{{GREEDY{}}}", nm(name)),
        }
    }
}

pub fn escape(literal: &str) -> String {
    literal.replace("%{", "\\%\\{")
}

pub fn source(tokens: &[Tok]) -> String {
    tokens.iter().map(|t| t.source()).collect()
}

/// GREEDY takes the literal that directly follows it as its end string.
pub fn link_greedy(mut tokens: Tokens) -> Tokens {
    for i in 0..tokens.len() {
        let next = match tokens.get(i + 1) {
            Some(&Tok::Lit(ref l)) => Some(l.clone()),
            _ => None,
        };
        if let Tok::Greedy { ref mut end, .. } = tokens[i] {
            *end = next;
        }
    }
    tokens
}

/// The values of a match, sorted by name; leftmost occurrence wins.
pub type Values = Vec<(String, String)>;

/// Does the pattern consume the whole message? At most one derivation exists.
pub fn matches(tokens: &[Tok], msg: &str) -> Option<Values> {
    let mut rest = msg;
    let mut values: Values = vec![];
    for t in tokens {
        let n = match t.consume(rest) {
            Some(n) => n,
            None => return None,
        };
        if let Some(name) = t.name() {
            if !values.iter().any(|v| v.0 == name) {
                values.push((name.to_owned(), rest[..n].to_owned()));
            }
        }
        rest = &rest[n..];
    }
    if rest.is_empty() {
        values.sort();
        Some(values)
    } else {
        None
    }
}

/// Of the candidates (indices into `seq`, every one matching the message), the one that must be reported.
pub fn pick(seq: &[&Tokens], cands: &[usize]) -> usize {
    let mut cands: Vec<usize> = cands.to_vec();
    let mut d = 0;
    loop {
        assert!(!cands.is_empty());
        // patterns that end here: identical token sequences, the last one added replaced the others
        if let Some(&c) = cands.iter().filter(|&&c| seq[c].len() == d).max() {
            return c;
        }
        // literals first, longest first
        let longest = cands.iter().filter_map(|&c| match seq[c][d] { Tok::Lit(ref l) => Some(l.len()), _ => None }).max();
        if let Some(len) = longest {
            cands.retain(|&c| match seq[c][d] { Tok::Lit(ref l) => l.len() == len, _ => false });
        } else {
            // parsers in the order in which they were first added at this place
            let prefix: Tokens = seq[cands[0]][..d].to_vec();
            let first_added = |t: &Tok| seq.iter().position(|p| p.len() > d && p[..d] == prefix[..] && p[d] == *t).unwrap();
            let best = cands.iter().map(|&c| first_added(&seq[c][d])).min().unwrap();
            let tok = seq[best][d].clone();
            cands.retain(|&c| seq[c][d] == tok);
        }
        d += 1;
    }
}

/// Reference answer of a matcher to which the patterns `seq` were added in that order.
pub fn answer(seq: &[&Tokens], msg: &str) -> Option<(usize, Values)> {
    let cands: Vec<usize> = (0..seq.len()).filter(|&i| matches(seq[i], msg).is_some()).collect();
    if cands.is_empty() {
        return None;
    }
    let w = pick(seq, &cands);
    Some((w, matches(seq[w], msg).unwrap()))
}
