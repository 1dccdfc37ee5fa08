//! The ways to get patterns into a matcher.
use actiondb::grammar::parser as text;
use actiondb::matcher::compiled_pattern::{CompiledPattern, CompiledPatternBuilder};
use actiondb::matcher::pattern::file::PatternFile;
use actiondb::matcher::pattern::source::BuildResult;
use actiondb::matcher::pattern::testmessage::TestMessage;
use actiondb::matcher::suffix_array::SuffixArrayMatcherSuite;
use actiondb::matcher::trie::TrieMatcherSuite;
use actiondb::matcher::{BuildError, FromPatternSource, Matcher, MatcherFactory, MatcherSuite, Pattern, PatternLoader};
use crate::doc::{obj, s, V};
use crate::engine::{self, Local};
use crate::model::{self, link_greedy, Tok, Tokens};
use crate::real::{self, Kind};
use std::collections::BTreeMap;

pub type Map = BTreeMap<String, String>;

#[derive(Clone, Debug)]
pub struct Spec {
    pub tokens: Tokens,
    pub name: Option<String>,
    pub values: Option<Map>,
    pub tags: Option<Vec<String>>,
}

pub fn spec(tokens: Tokens, id: usize) -> Spec {
    let mut m = Map::new();
    m.insert(format!("k{}", id), format!("v{}", id));
    m.insert("x".to_owned(), "y é".to_owned());
    let tokens = link_greedy(tokens);
    match id % 6 {
        4 => Spec { tokens, name: Some("".to_owned()), values: Some(m), tags: Some(vec!["t".to_owned(), "t".to_owned(), "b".to_owned(), "a".to_owned(), "t".to_owned(), "".to_owned(), "".to_owned(), "T".to_owned()]) },
        5 => {
            m.insert("".to_owned(), "".to_owned());
            m.insert(" k ".to_owned(), " v\t\n".to_owned());
            Spec { tokens, name: Some(" a \"b\"\n".to_owned()), values: Some(m), tags: Some(vec![" t ".to_owned(), "t\n".to_owned(), "#t".to_owned(), "\u{20ac}".to_owned()]) }
        }
        0 => Spec { tokens, name: None, values: None, tags: None },
        1 => Spec { tokens, name: Some(format!("name {}", id)), values: Some(m), tags: Some(vec!["t".to_owned(), format!("u{}", id)]) },
        2 => Spec { tokens, name: Some("n".to_owned()), values: Some(Map::new()), tags: Some(vec![]) },
        _ => Spec { tokens, name: None, values: None, tags: Some(vec![format!("t{}", id), "".to_owned()]) },
    }
}

/// A compiled pattern as the reference route builds it.
pub fn pattern(id: usize, p: &Spec, cp: CompiledPattern, tests: Option<Vec<TestMessage>>) -> Pattern {
    Pattern::new(p.name.clone(), real::uuid(id), cp, tests, p.values.clone(), p.tags.clone())
}

pub fn parsed(p: &Spec) -> Result<CompiledPattern, String> {
    text::pattern(&model::source(&p.tokens)).map_err(|e| format!("{}: {}", model::source(&p.tokens), e))
}

pub fn document(id: usize, p: &Spec, tests: &[&str]) -> V {
    let mut o = vec![("uuid", s(&real::uuid(id).hyphenated().to_string())), ("pattern", s(&model::source(&p.tokens)))];
    if let Some(ref n) = p.name {
        o.push(("name", s(n)));
    }
    if let Some(ref m) = p.values {
        o.push(("values", V::Obj(m.iter().map(|x| (x.0.clone(), s(x.1))).collect())));
    }
    if let Some(ref t) = p.tags {
        o.push(("tags", V::Arr(t.iter().map(|x| s(x)).collect())));
    }
    if !tests.is_empty() {
        o.push(("test_messages", V::Arr(tests.iter().map(|m| obj(&[("message", s(m))])).collect())));
    }
    obj(&o)
}

/// The file whose entries are taken from the last to the first.
pub fn file(seq: &[&Spec], tests: &[&str]) -> V {
    obj(&[("patterns", V::Arr(seq.iter().enumerate().rev().map(|(i, p)| document(i, p, tests)).collect()))])
}

pub const ROUTES: [&str; 22] = [
    "compiled patterns added one by one",
    "pattern texts compiled with grammar::parser::pattern",
    "pattern texts compiled with the parser factory of the suite",
    "the compiled pattern builder",
    "Pattern::from_json",
    "Pattern::with_uuid and set_pattern, called several times with other patterns first",
    "from_source",
    "from_source_ignore_errors",
    "from_source_ignore_errors with failing test messages and unreadable items in between",
    "PatternFile as a source",
    "from_file on JSON",
    "from_file on YAML",
    "from_file_ignore_errors on JSON",
    "from_file_ignore_errors on YAML",
    "from_file_ignore_errors with failing test messages on JSON",
    "load_file and adding the patterns",
    "Default::default and added one by one",
    "clones of the patterns",
    "a clone of the matcher",
    "a boxed clone of the matcher",
    "a boxed clone before every addition",
    "parsing in between",
];

pub fn build<S: MatcherSuite>(seq: &[&Spec], route: usize, l: &Local, msgs: &[String]) -> Result<Box<dyn Matcher>, String>
    where S::Matcher: Clone + Default + 'static
{
    fn fill<M: Matcher>(mut m: M, pats: Vec<Pattern>) -> M {
        for p in pats {
            m.add_pattern(p);
        }
        m
    }
    let path = |ext: &str, v: &V| {
        let p = engine::scratch().join(format!("r{}.{}", l.worker, ext));
        std::fs::write(&p, if ext == "json" { v.json() } else { format!("{}\n", v.yaml_block(0, ext == "yml")) }).expect("write scratch file");
        p.to_str().unwrap().to_owned()
    };
    let e = |e: BuildError| format!("building fails: {}", e);
    let new = || <S::MatcherFactory as MatcherFactory>::new_matcher();
    let plain = |tests: Option<&str>| -> Vec<Pattern> {
        seq.iter().enumerate().map(|(i, p)| pattern(i, p, real::compiled(&p.tokens), tests.map(|t| vec![TestMessage::new(t.to_owned(), Map::new(), None)]))).collect()
    };
    let m: Box<dyn Matcher> = match route {
        0 => Box::new(fill(new(), plain(None))),
        1 => {
            let mut v = vec![];
            for (i, p) in seq.iter().enumerate() {
                v.push(pattern(i, p, parsed(p)?, None));
            }
            Box::new(fill(new(), v))
        }
        2 => {
            let mut v = vec![];
            for (i, p) in seq.iter().enumerate() {
                v.push(pattern(i, p, text::pattern_with_factory::<S::ParserFactory>(&model::source(&p.tokens)).map_err(|e| e.to_string())?, None));
            }
            Box::new(fill(new(), v))
        }
        3 => Box::new(fill(new(), seq.iter().enumerate().map(|(i, p)| {
            let mut b = CompiledPatternBuilder::new();
            for t in &p.tokens {
                match *t {
                    Tok::Lit(ref x) => b.literal(&x[..]),
                    ref t => b.parser(real::parser(t)),
                };
            }
            pattern(i, p, b.build(), None)
        }).collect())),
        4 => {
            let mut v = vec![];
            for (i, p) in seq.iter().enumerate() {
                v.push(Pattern::from_json(&document(i, p, &[]).json()).map_err(|e| e.to_string())?);
            }
            Box::new(fill(new(), v))
        }
        5 => Box::new(fill(new(), seq.iter().enumerate().map(|(i, p)| {
            let mut x = Pattern::with_uuid(real::uuid(i));
            // what was set before leaves nothing behind: longer, shorter, other than what is set last
            if i % 3 != 2 {
                let mut longer = p.tokens.clone();
                longer.extend(p.tokens.iter().cloned());
                longer.extend([Tok::Lit("earlier".to_owned()), model::int("earlier")]);
                x.set_pattern(real::compiled(&longer));
            }
            if i % 3 != 0 {
                x.set_pattern(real::compiled(&vec![Tok::Lit("earlier".to_owned())]));
            }
            x.set_pattern(real::compiled(&p.tokens));
            x
        }).collect())),
        6 => Box::new(<S::Matcher as FromPatternSource>::from_source::<S::MatcherFactory>(&mut plain(None).into_iter().map(Ok)).map_err(e)?),
        7 => Box::new(<S::Matcher as FromPatternSource>::from_source_ignore_errors::<S::MatcherFactory>(&mut plain(None).into_iter().map(Ok))),
        8 => {
            let mut v: Vec<BuildResult> = vec![Err(BuildError::UnsupportedFileExtension)];
            for p in plain(Some("no such message ☃")) {
                v.push(Ok(p));
                v.push(Err(BuildError::NotUtf8FileName));
            }
            Box::new(<S::Matcher as FromPatternSource>::from_source_ignore_errors::<S::MatcherFactory>(&mut v.into_iter()))
        }
        9 => {
            let mut patterns = plain(None);
            patterns.reverse();
            Box::new(<S::Matcher as FromPatternSource>::from_source::<S::MatcherFactory>(&mut PatternFile { patterns }.into_iter()).map_err(e)?)
        }
        10 => Box::new(PatternLoader::from_file::<S::MatcherFactory>(&path("json", &file(seq, &[]))).map_err(e)?),
        11 => Box::new(PatternLoader::from_file::<S::MatcherFactory>(&path("yaml", &file(seq, &[]))).map_err(e)?),
        12 => Box::new(PatternLoader::from_file_ignore_errors::<S::MatcherFactory>(&path("json", &file(seq, &[]))).map_err(e)?),
        13 => Box::new(PatternLoader::from_file_ignore_errors::<S::MatcherFactory>(&path("yml", &file(seq, &[]))).map_err(e)?),
        14 => Box::new(PatternLoader::from_file_ignore_errors::<S::MatcherFactory>(&path("json", &file(seq, &["no such message ☃", "☃"]))).map_err(e)?),
        15 => {
            let mut v = PatternLoader::load_file(&path("json", &file(seq, &["☃"]))).map_err(e)?.patterns;
            v.reverse();
            Box::new(fill(new(), v))
        }
        16 => Box::new(fill(<S::Matcher as Default>::default(), plain(None))),
        17 => {
            let v = plain(None);
            Box::new(fill(new(), v.iter().map(|p| p.clone()).collect()))
        }
        18 => {
            let m = fill(new(), plain(None));
            let c = m.clone();
            drop(m);
            Box::new(c)
        }
        19 => fill(new(), plain(None)).boxed_clone(),
        20 => {
            let mut m: Box<dyn Matcher> = Box::new(new());
            for p in plain(None) {
                m = m.boxed_clone();
                m.add_pattern(p);
            }
            m
        }
        _ => {
            let mut m = new();
            for p in plain(None) {
                for x in msgs.iter().take(12) {
                    let _ = m.parse(x);
                }
                m.add_pattern(p);
            }
            Box::new(m)
        }
    };
    Ok(m)
}

/// The routes that go through pattern texts.
pub fn by_text(route: usize) -> bool {
    match route { 1 | 2 | 4 | 10..=15 => true, _ => false }
}

pub fn build_kind(kind: Kind, seq: &[&Spec], route: usize, l: &Local, msgs: &[String]) -> Result<Box<dyn Matcher>, String> {
    match kind {
        Kind::Trie => build::<TrieMatcherSuite>(seq, route, l, msgs),
        Kind::SuffixArray => build::<SuffixArrayMatcherSuite>(seq, route, l, msgs),
    }
}
