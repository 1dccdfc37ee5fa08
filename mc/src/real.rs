//! Glue to the library under test: only its public API is used.

use actiondb::matcher::compiled_pattern::{CompiledPattern, TokenType};
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::{Matcher, MatcherFactory, Pattern};
use actiondb::parsers::{GreedyParser, HasLengthConstraint, IntParser, Parser, SetParser};
use std::collections::BTreeMap;
use uuid::Uuid;

use crate::model::{Tok, Values};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Trie,
    SuffixArray,
}
pub const KINDS: [Kind; 2] = [Kind::Trie, Kind::SuffixArray];

pub fn new_matcher(kind: Kind) -> Box<dyn Matcher> {
    match kind {
        Kind::Trie => Box::new(<TrieMatcherFactory as MatcherFactory>::new_matcher()),
        Kind::SuffixArray => Box::new(<SuffixArrayMatcherFactory as MatcherFactory>::new_matcher()),
    }
}

/// The ways to a matcher that holds these patterns.
pub const ROUTES: usize = 4;
pub const ROUTE_NAMES: [&str; ROUTES] = ["added one by one", "clones of the patterns added, the matcher then cloned (boxed)", "the matcher cloned (boxed) before every addition", "the matcher cloned after the last addition"];

pub fn by_route(kind: Kind, pats: Vec<Pattern>, route: usize) -> Box<dyn Matcher> {
    fn concrete<F: MatcherFactory>(pats: Vec<Pattern>) -> Box<dyn Matcher> where F::Matcher: Clone + 'static {
        let mut m = F::new_matcher();
        for p in pats {
            m.add_pattern(p);
        }
        let c = m.clone();
        drop(m);
        Box::new(c)
    }
    let mut m = new_matcher(kind);
    match route {
        0 => {
            for p in pats {
                m.add_pattern(p);
            }
            m
        }
        1 => {
            for p in &pats {
                m.add_pattern(p.clone());
            }
            m.boxed_clone()
        }
        2 => {
            for p in pats {
                m = m.boxed_clone();
                m.add_pattern(p);
            }
            m
        }
        _ => match kind {
            Kind::Trie => concrete::<TrieMatcherFactory>(pats),
            Kind::SuffixArray => concrete::<SuffixArrayMatcherFactory>(pats),
        },
    }
}

pub fn parser(tok: &Tok) -> Box<dyn Parser> {
    match *tok {
        Tok::Lit(_) => unreachable!(),
        Tok::Set { ref set, ref name, min, max } => {
            let mut p = SetParser::new(set);
            p.set_min_length(min);
            p.set_max_length(max);
            p.set_name(name.clone());
            Box::new(p)
        }
        Tok::Int { ref name, min, max } => {
            let mut p = IntParser::new();
            p.set_min_length(min);
            p.set_max_length(max);
            p.set_name(name.clone());
            Box::new(p)
        }
        Tok::Greedy { ref name, ref end } => {
            let mut p = GreedyParser::new();
            p.set_end_string(end.clone());
            p.set_name(name.clone());
            Box::new(p)
        }
    }
}

pub fn compiled(tokens: &[Tok]) -> CompiledPattern {
    tokens.iter()
          .map(|t| match *t {
              Tok::Lit(ref l) => TokenType::Literal(l.clone()),
              ref p => TokenType::Parser(parser(p)),
          })
          .collect()
}

/// The ids from here on stand for uuids that a program could treat specially.
pub const SPECIAL: usize = 1 << 40;
pub const SPECIALS: [&str; 14] = [
    "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff", "00000000-0000-0000-0000-000000000001", "10000000-0000-0000-0000-000000000000",
    "6ba7b810-9dad-11d1-80b4-00c04fd430c8", "00000000-0000-4000-8000-000000000000", "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "9a49c47d-29e9-3072-be84-3b76c6814743",
    "9a49c47d-29e9-5072-be84-3b76c6814743", "00000000-ffff-0000-ffff-000000000000", "80000000-0000-0000-0000-000000000000", "7fffffff-ffff-ffff-ffff-ffffffffffff",
    "00000000-0000-0000-8000-000000000000", "01020304-0506-0708-090a-0b0c0d0e0f10",
];

pub fn uuid(id: usize) -> Uuid {
    if id >= SPECIAL {
        return Uuid::parse_str(SPECIALS[id - SPECIAL]).unwrap();
    }
    let mut b = [0u8; 16];
    for i in 0..8 {
        b[8 + i] = ((id as u64) >> (8 * (7 - i))) as u8;
    }
    b[0] = 0xac;
    Uuid::from_bytes(&b).unwrap()
}

pub fn uuid_id(u: &Uuid) -> Option<usize> {
    let b = u.as_bytes();
    if b[0] != 0xac || b[1..8].iter().any(|x| *x != 0) {
        return SPECIALS.iter().position(|s| Uuid::parse_str(s).ok() == Some(*u)).map(|k| SPECIAL + k);
    }
    Some(b[8..].iter().fold(0u64, |a, x| (a << 8) | *x as u64) as usize)
}

pub fn pattern(id: usize, tokens: &[Tok]) -> Pattern {
    Pattern::new(None, uuid(id), compiled(tokens), None, None, None)
}

pub fn same_values(got: &BTreeMap<&str, &str>, expected: &Values) -> bool {
    got.len() == expected.len() && got.iter().zip(expected.iter()).all(|(g, e)| *g.0 == e.0 && *g.1 == e.1)
}

pub fn owned_values(got: &BTreeMap<&str, &str>) -> Values {
    got.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}

/// What a user sees of a parse call.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Seen {
    pub id: Option<usize>,
    pub values: Values,
}

pub fn ask(m: &dyn Matcher, msg: &str) -> Option<Seen> {
    m.parse(msg).map(|r| Seen { id: uuid_id(r.pattern().uuid()), values: owned_values(r.values()) })
}
