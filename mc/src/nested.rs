//! Interleavings at every point at which the library calls out: parsers, parser factories, pattern sources,
//! matchers and loggers of the user's own run another operation of the library (on the same thread or, while
//! this one waits, on another one) or panic; nobody may notice.

use crate::engine::{guard, violation, Family, Local, Outcome};
use crate::logcap;
use crate::model::{self, link_greedy, lit, Tok, Tokens};
use crate::real::{self, Kind, KINDS};
use actiondb::grammar::parser as text;
use actiondb::matcher::compiled_pattern::{CompiledPattern, TokenType};
use actiondb::matcher::pattern::source::BuildResult;
use actiondb::matcher::pattern::testmessage::TestMessage;
use actiondb::matcher::result::MatchResult;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::trie::parser_factory::TrieParserFactory;
use actiondb::matcher::{BuildError, FromPatternSource, Matcher, MatcherFactory, Pattern, PatternLoader};
use actiondb::parsers::{ObjectSafeHash, OptionalParameter, ParseResult, Parser, ParserFactory};
use log::LogLevelFilter;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Where {
    SameThread,
    OtherThread,
    Panic,
}

#[derive(Default)]
struct Ticker {
    armed: bool,
    count: u64,
    at: u64,
    fire: Option<(usize, Where)>,
    result: Option<Result<String, String>>,
    /// what called out at that point
    what: &'static str,
}

thread_local! {
    static TICKER: RefCell<Ticker> = RefCell::new(Ticker::default());
    static OUTER: Cell<Option<*const dyn Matcher>> = Cell::new(None);
    static STANDING: Vec<Box<dyn Matcher>> = standing();
    static HELPER: (Sender<usize>, Receiver<Result<String, String>>) = helper();
}

const PANIC: &str = "panic of a callback";

/// Called whenever the library calls something of ours.
fn tick(what: &'static str) {
    let fire = TICKER.try_with(|t| {
        let mut t = match t.try_borrow_mut() { Ok(t) => t, Err(_) => return None };
        if !t.armed {
            return None;
        }
        t.count += 1;
        if t.count - 1 != t.at {
            return None;
        }
        t.armed = false;
        t.what = what;
        t.fire
    }).ok().and_then(|f| f);
    if let Some((op, place)) = fire {
        let r = match place {
            Where::SameThread => guard(|| inner(op)),
            Where::OtherThread => HELPER.with(|h| {
                h.0.send(op).expect("helper");
                // in small steps: a pause of the whole machine must not count
                (0..600).filter_map(|_| h.1.recv_timeout(Duration::from_millis(50)).ok()).next().unwrap_or(Err("does not return within 30 s while another thread is inside the library".to_owned()))
            }),
            Where::Panic => {
                if std::thread::panicking() || what == "drop of a parser" {
                    // a panic there would end the process, whatever the library does
                    TICKER.with(|t| t.borrow_mut().result = Some(Ok(String::new())));
                    return;
                }
                TICKER.with(|t| t.borrow_mut().result = Some(Err(PANIC.to_owned())));
                panic!("{}", PANIC);
            }
        };
        TICKER.with(|t| t.borrow_mut().result = Some(r));
    }
}

fn helper() -> (Sender<usize>, Receiver<Result<String, String>>) {
    let (tx, rx) = channel::<usize>();
    let (back, result) = channel();
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        for op in rx {
            if back.send(guard(|| inner(op))).is_err() {
                break;
            }
        }
    }).expect("spawn helper");
    (tx, result)
}

// ---------------------------------------------------------------- what runs in between

fn standing_pool() -> Vec<Tokens> {
    vec![vec![lit("a"), model::int("x")], vec![lit("ab")], vec![lit("abc"), model::set("ab", "s")], vec![model::set("ab", "s")], vec![model::int("x")], link_greedy(vec![model::greedy("g"), lit("!"), model::int("y")]), vec![lit("a"), model::greedy("g")]]
}

fn standing() -> Vec<Box<dyn Matcher>> {
    KINDS.iter().map(|&k| {
        let mut m = real::new_matcher(k);
        for (i, p) in standing_pool().iter().enumerate() {
            m.add_pattern(real::pattern(100 + i, p));
        }
        m
    }).collect()
}

const INNER_MSGS: [&str; 10] = ["a1", "ab", "abcab", "ba", "7", "x!3", "a", "", "a b c", "111"];

pub const INNER: [&str; 13] = [
    "parse calls on a trie", "parse calls on a suffix array", "building a trie and asking it", "building a suffix array and asking it", "cloning, extending and dropping matchers",
    "compiling pattern texts", "rejecting pattern texts", "strict loads from sources", "lenient loads from sources", "reading definitions", "the same parse call on the matcher in use", "other parse calls on the matcher in use", "cloning the matcher in use",
];
/// From this one on the matcher of the outer operation is used.
const ON_OUTER: usize = 10;

fn answers(m: &dyn Matcher, msgs: &[&str]) -> String {
    msgs.iter().map(|x| format!("{:?}", m.parse(x).map(|r| (real::uuid_id(r.pattern().uuid()), r.pattern().name().map(|n| n.to_owned()), real::owned_values(r.values()))))).collect::<Vec<_>>().join(" ")
}

fn tokens_text(cp: &CompiledPattern) -> String {
    cp.iter().map(|t| match *t {
        TokenType::Literal(ref l) => format!("{:?}", l),
        TokenType::Parser(ref p) => format!("{:?}/{:x}", p.name(), p.hash_os()),
    }).collect::<Vec<_>>().join(" ")
}

fn compile(x: &str) -> String {
    match text::pattern(x) {
        Ok(cp) => tokens_text(&cp),
        // the expected things come in any order
        Err(e) => format!("{}:{} {:?}", e.line, e.column, e.expected.iter().collect::<std::collections::BTreeSet<_>>()),
    }
}

fn test(m: &str, n: Option<&str>) -> Option<Vec<TestMessage>> {
    let values = n.map(|n| ("x".to_owned(), n.to_owned())).into_iter().collect::<BTreeMap<_, _>>();
    Some(vec![TestMessage::new(m.to_owned(), values, None)])
}

fn plain_source(fail: bool) -> Vec<BuildResult> {
    vec![
        Ok(Pattern::new(Some("one".to_owned()), real::uuid(1), real::compiled(&[lit("a"), model::int("x")]), test("a1", Some("1")), None, None)),
        Err(BuildError::UnsupportedFileExtension),
        Ok(Pattern::new(None, real::uuid(2), real::compiled(&[model::set("ab", "s")]), test(if fail { "x" } else { "ab" }, None), None, None)),
    ].into_iter().filter(|x| fail || x.is_ok()).collect()
}

fn load_text<M: Matcher>(r: Result<M, BuildError>, msgs: &[&str]) -> String {
    match r {
        Ok(m) => answers(&m, msgs),
        Err(e) => format!("{}", e),
    }
}

fn inner(op: usize) -> String {
    match op {
        0 | 1 => STANDING.with(|s| answers(&*s[op], &INNER_MSGS)),
        2 | 3 => {
            let mut m = real::new_matcher(KINDS[op - 2]);
            for (i, p) in standing_pool().iter().enumerate().rev() {
                m.add_pattern(real::pattern(i, p));
            }
            answers(&*m, &INNER_MSGS)
        }
        4 => STANDING.with(|s| s.iter().map(|m| {
            let mut c = m.boxed_clone();
            c.add_pattern(real::pattern(500, &[lit("a b"), lit(" c")]));
            let d = c.boxed_clone();
            let x = answers(&*c, &INNER_MSGS);
            drop(c);
            x + &answers(&*d, &INNER_MSGS[..3])
        }).collect()),
        5 => ["a%{INT:n}b", "%{SET(\"ab\",min_len=1):s}", "x%{GREEDY:g}y", "\\%\\{x"].iter().map(|x| compile(x)).collect::<Vec<_>>().join("; "),
        6 => ["", "%{", "a\nb%{XYZ}", "%{INT(min_len=99999999999999999999):n}"].iter().map(|x| compile(x)).collect::<Vec<_>>().join("; "),
        7 => [true, false].iter().map(|&f| {
            load_text(<<TrieMatcherFactory as MatcherFactory>::Matcher as FromPatternSource>::from_source::<TrieMatcherFactory>(&mut plain_source(f).into_iter()), &INNER_MSGS[..4])
                + &load_text(<<SuffixArrayMatcherFactory as MatcherFactory>::Matcher as FromPatternSource>::from_source::<SuffixArrayMatcherFactory>(&mut plain_source(f).into_iter()), &INNER_MSGS[..4])
        }).collect(),
        8 => answers(&<<TrieMatcherFactory as MatcherFactory>::Matcher as FromPatternSource>::from_source_ignore_errors::<TrieMatcherFactory>(&mut plain_source(true).into_iter()), &INNER_MSGS[..4])
            + &answers(&<<SuffixArrayMatcherFactory as MatcherFactory>::Matcher as FromPatternSource>::from_source_ignore_errors::<SuffixArrayMatcherFactory>(&mut plain_source(true).into_iter()), &INNER_MSGS[..4]),
        9 => ["{\"uuid\":\"9a49c47d-29e9-4072-be84-3b76c6814743\",\"pattern\":\"a%{INT:n}\",\"tags\":[\"t\"]}", "{\"pattern\":\"a\"}", "{\"uuid\":\"9a49c47d-29e9-4072-be84-3b76c6814743\",\"pattern\":\"%{\"}"].iter().map(|x| match Pattern::from_json(x) {
            Ok(p) => format!("{} {} {:?};", p.uuid(), tokens_text(p.pattern()), p.tags()),
            // with the letters in order: what it says is expected comes in any order
            Err(e) => {
                let mut x: Vec<char> = format!("{};", e).chars().collect();
                x.sort();
                x.into_iter().collect()
            }
        }).collect::<String>() + &PatternLoader::load_file("/nonexistent/x.json").err().map_or(String::new(), |e| e.to_string()),
        _ => OUTER.with(|o| o.get()).map_or(String::new(), |m| {
            // the outer operation only holds a shared reference to it
            let m: &dyn Matcher = unsafe { &*m };
            match op {
                10 => answers(m, &OUTER_MSGS[..1]) + &answers(m, &OUTER_MSGS),
                11 => answers(m, &OUTER_MSGS[1..]),
                _ => answers(&*m.boxed_clone(), &OUTER_MSGS),
            }
        }),
    }
}

// ---------------------------------------------------------------- things of the user's own that call out

#[derive(Debug)]
struct Hook {
    tok: Tok,
    name: Option<String>,
}

impl Drop for Hook {
    fn drop(&mut self) {
        tick("drop of a parser");
    }
}

impl ObjectSafeHash for Hook {
    fn hash_os(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        tick("hash_os of a parser");
        let mut h = std::collections::hash_map::DefaultHasher::new();
        ("hook", &self.tok, &self.name).hash(&mut h);
        h.finish()
    }
}

impl Parser for Hook {
    fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<ParseResult<'a, 'b>> {
        tick("parse of a parser");
        let n = self.tok.consume(value);
        n.map(|n| ParseResult::new(self, &value[..n]))
    }
    fn name(&self) -> Option<&str> {
        tick("name of a parser");
        self.name.as_ref().map(|s| &s[..])
    }
    fn set_name(&mut self, name: Option<String>) {
        self.name = name;
    }
    fn boxed_clone(&self) -> Box<dyn Parser> {
        tick("boxed_clone of a parser");
        Box::new(Hook { tok: self.tok.clone(), name: self.name.clone() })
    }
}

fn hook(t: &Tok) -> Box<dyn Parser> {
    Box::new(Hook { tok: t.clone(), name: t.name().map(|n| n.to_owned()) })
}

/// `hooked`: the parsers are of the user's own.
fn pattern(id: usize, tokens: &Tokens, hooked: bool, tests: Option<Vec<TestMessage>>) -> Pattern {
    let cp: CompiledPattern = tokens.iter().map(|t| match *t {
        Tok::Lit(ref l) => TokenType::Literal(l.clone()),
        ref p => TokenType::Parser(if hooked { hook(p) } else { real::parser(p) }),
    }).collect();
    Pattern::new(Some(format!("n{}", id)), real::uuid(id), cp, tests, None, None)
}

struct Ticking<I>(I);
impl<I: Iterator> Iterator for Ticking<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick("next of a source");
        let x = self.0.next();
        tick("next of a source");
        x
    }
}

#[derive(Debug)]
struct TickMatcher(Box<dyn Matcher>);
impl Matcher for TickMatcher {
    fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
        tick("parse of a matcher");
        self.0.parse(text)
    }
    fn add_pattern(&mut self, pattern: Pattern) {
        tick("add_pattern of a matcher");
        self.0.add_pattern(pattern)
    }
    fn boxed_clone(&self) -> Box<dyn Matcher> {
        self.0.boxed_clone()
    }
}
struct TickFactory;
impl MatcherFactory for TickFactory {
    type Matcher = TickMatcher;
    fn new_matcher() -> TickMatcher {
        tick("new_matcher of a factory");
        TickMatcher(real::new_matcher(Kind::SuffixArray))
    }
}

struct TickParsers;
impl ParserFactory for TickParsers {
    fn new_set<'a>(set: &str, name: Option<&str>, p: Option<Vec<OptionalParameter<'a>>>) -> Box<dyn Parser> {
        tick("new_set of a factory");
        TrieParserFactory::new_set(set, name, p)
    }
    fn new_int(name: Option<&str>, p: Option<Vec<OptionalParameter>>) -> Box<dyn Parser> {
        tick("new_int of a factory");
        TrieParserFactory::new_int(name, p)
    }
    fn new_greedy(name: Option<&str>, end: Option<&str>) -> Box<dyn Parser> {
        tick("new_greedy of a factory");
        TrieParserFactory::new_greedy(name, end)
    }
}

// ---------------------------------------------------------------- what is interrupted

const OUTER_MSGS: [&str; 7] = ["a1", "ab1", "1", "b!", "a1!b", "abab", ""];

/// parse calls; build; clone; strict and lenient load; strict load by a matcher of the user's own; compile
const OUTERS: usize = OUTER_MSGS.len() + 6;

fn outer_name(op: usize) -> String {
    if op < OUTER_MSGS.len() { format!("parse({:?})", OUTER_MSGS[op]) } else { ["adding the patterns and asking", "cloning the matcher, dropping the clone", "a strict load", "a lenient load", "a load by a matcher of the user's own", "compiling a pattern text with a parser factory of the user's own"][op - OUTER_MSGS.len()].to_owned() }
}

fn loads<F: MatcherFactory>(pats: Vec<BuildResult>, lenient: bool) -> String {
    let mut source = Ticking(pats.into_iter());
    if lenient {
        answers(&<F::Matcher as FromPatternSource>::from_source_ignore_errors::<F>(&mut source), &OUTER_MSGS)
    } else {
        load_text(<F::Matcher as FromPatternSource>::from_source::<F>(&mut source), &OUTER_MSGS)
    }
}

/// Runs the outer operation; `m` holds the patterns. True: a panic in between leaves nothing half done.
fn outer(op: usize, kind: Kind, m: &dyn Matcher, toks: &[&Tokens], hooked: bool) -> String {
    let shared = |f: &dyn Fn() -> String| -> String {
        let p: *const (dyn Matcher + '_) = m;
        OUTER.with(|o| o.set(Some(unsafe { std::mem::transmute(p) })));
        let r = f();
        OUTER.with(|o| o.set(None));
        r
    };
    let build = || toks.iter().enumerate().map(|(i, t)| pattern(i, t, hooked, None));
    let source = || -> Vec<BuildResult> {
        let mut v: Vec<BuildResult> = toks.iter().enumerate().map(|(i, t)| Ok(pattern(i, t, hooked, test(OUTER_MSGS[i], None)))).collect();
        v.insert(1, Err(BuildError::UnsupportedFileExtension));
        v
    };
    let n = OUTER_MSGS.len();
    if op < n {
        return shared(&|| answers(m, &OUTER_MSGS[op..op + 1]));
    }
    match op - n {
        0 => {
            let mut m = real::new_matcher(kind);
            for p in build() {
                m.add_pattern(p);
            }
            answers(&*m, &OUTER_MSGS)
        }
        1 => shared(&|| {
            let c = m.boxed_clone();
            let x = answers(&*c, &OUTER_MSGS);
            drop(c);
            x + &answers(m, &OUTER_MSGS)
        }),
        2 => {
            let v: Vec<BuildResult> = source().into_iter().filter(|x| x.is_ok()).collect();
            match kind {
                Kind::Trie => loads::<TrieMatcherFactory>(v, false),
                Kind::SuffixArray => loads::<SuffixArrayMatcherFactory>(v, false),
            }
        }
        3 => match kind {
            Kind::Trie => loads::<TrieMatcherFactory>(source(), true),
            Kind::SuffixArray => loads::<SuffixArrayMatcherFactory>(source(), true),
        },
        4 => loads::<TickFactory>(source(), false) + &loads::<TickFactory>(source(), true),
        _ => {
            let x = "a%{INT:n}%{SET(\"ab\",min_len=1,max_len=3):s} %{GREEDY:g}\\%\\{%{GREEDY}";
            match text::pattern_with_factory::<TickParsers>(x) {
                Ok(cp) => tokens_text(&cp),
                Err(e) => format!("{}", e),
            }
        }
    }
}

fn arm(at: u64, fire: Option<(usize, Where)>) {
    TICKER.with(|t| *t.borrow_mut() = Ticker { armed: true, count: 0, at, fire, result: None, what: "" });
}
fn disarm() -> (u64, Option<Result<String, String>>, &'static str) {
    TICKER.with(|t| {
        let mut t = t.borrow_mut();
        t.armed = false;
        (t.count, t.result.take(), t.what)
    })
}

pub fn pool() -> Vec<Tokens> {
    use crate::model::{greedy, int, set};
    vec![
        vec![lit("a"), int("x")], vec![int("x")], vec![set("ab", "s")], vec![set("ab", "s"), int("x")], link_greedy(vec![greedy("g"), lit("!"), set("ab", "t")]),
        vec![lit("ab"), greedy("g")], vec![lit("a"), set("ab1", "s"), lit("!"), greedy("g")], vec![lit("ab")],
    ]
}

fn explore(toks: &[&Tokens], kind: Kind, hooked: bool, l: &mut Local) -> Outcome {
    let mut m = real::new_matcher(kind);
    for (i, t) in toks.iter().enumerate() {
        m.add_pattern(pattern(i, t, hooked, None));
    }
    let plain: Vec<String> = (0..INNER.len()).map(|op| inner(op)).collect();
    l.states += 1;
    for op in 0..OUTERS {
        if op == OUTERS - 1 && (kind != Kind::Trie || toks[0] != toks[toks.len() - 1]) {
            continue; // does not depend on the patterns
        }
        arm(u64::max_value(), None);
        let expected = guard(|| outer(op, kind, &*m, toks, hooked));
        let (count, _, _) = disarm();
        let expected = match expected {
            Ok(e) => e,
            Err(e) => return violation(format!("{} panics: {}", outer_name(op), e), show(toks, kind, op, 0, "", 0, Where::SameThread)),
        };
        for at in 0..count {
            for i in 0..INNER.len() + 1 {
                for &place in &[Where::SameThread, Where::OtherThread, Where::Panic] {
                    if (place == Where::Panic) != (i == INNER.len()) || place == Where::OtherThread && i >= ON_OUTER {
                        continue;
                    }
                    arm(at, Some((i, place)));
                    let got = guard(|| outer(op, kind, &*m, toks, hooked));
                    let (_, result, what) = disarm();
                    let outer_matcher = OUTER.with(|o| o.replace(None));
                    l.transitions += 1;
                    l.traces += 1;
                    l.outcome(&(what, i, place, op));
                    let script = || show(toks, kind, op, at, what, i, place);
                    if place == Where::Panic {
                        let _ = outer_matcher;
                        match (&got, &result) {
                            (Err(e), Some(Err(_))) if e.contains(PANIC) => {}
                            (Ok(g), Some(Ok(_))) => if *g != expected {
                                return violation(format!("the answer is {} instead of {}", g, expected), script());
                            },
                            (Ok(_), Some(Err(_))) => {} // swallowed
                            (g, _) => return violation(format!("a callback panics, the outcome is {:?}", g), script()),
                        }
                        // afterwards all is as before
                        let again = guard(|| outer(op, kind, &*m, toks, hooked));
                        OUTER.with(|o| o.set(None));
                        if again.as_ref().ok() != Some(&expected) {
                            return violation(format!("after a callback panicked, the answer is {:?} instead of {}", again, expected), script());
                        }
                        let others: Vec<Result<String, String>> = (0..ON_OUTER).map(|op| guard(|| inner(op))).collect();
                        if let Some(k) = (0..ON_OUTER).find(|&k| others[k].as_ref().ok() != Some(&plain[k])) {
                            return violation(format!("after a callback panicked, {} gives {:?} instead of {}", INNER[k], others[k], plain[k]), script());
                        }
                        continue;
                    }
                    match got {
                        Err(e) => return violation(format!("{} panics: {}", outer_name(op), e), script()),
                        Ok(ref g) if *g != expected => return violation(format!("{} gives {} instead of {}", outer_name(op), g, expected), script()),
                        Ok(_) => {}
                    }
                    match result {
                        None => {} // it need not come again

                        Some(Err(e)) => return violation(format!("{} panics: {}", INNER[i], e), script()),
                        Some(Ok(ref r)) if i < ON_OUTER && *r != plain[i] => return violation(format!("{} gives {} instead of {}", INNER[i], r, plain[i]), script()),
                        Some(Ok(ref r)) if i >= ON_OUTER && !r.is_empty() => {
                            let right = match i { 10 => answers(&*m, &OUTER_MSGS[..1]) + &answers(&*m, &OUTER_MSGS), 11 => answers(&*m, &OUTER_MSGS[1..]), _ => answers(&*m, &OUTER_MSGS) };
                            if *r != right {
                                return violation(format!("{} gives {} instead of {}", INNER[i], r, right), script());
                            }
                        }
                        Some(Ok(_)) => {}
                    }
                }
            }
        }
    }
    logcap::take_errors();
    Ok(())
}

fn show(toks: &[&Tokens], kind: Kind, op: usize, at: u64, what: &str, i: usize, place: Where) -> String {
    let mut s = format!("{:?} matcher, patterns (parsers of the user's own): {:?}\n{}\n", kind, toks.iter().map(|t| model::source(t)).collect::<Vec<_>>(), outer_name(op));
    s += &match place {
        Where::Panic => format!("call number {} out of the library ({}) panics\n", at, what),
        Where::SameThread => format!("during call number {} out of the library ({}): {}\n", at, what, INNER[i]),
        Where::OtherThread => format!("during call number {} out of the library ({}), on another thread: {}\n", at, what, INNER[i]),
    };
    s
}

pub fn callbacks(k: usize) -> Family {
    let pool = pool();
    let n = pool.len() as u64;
    let bound = format!("all {}-sequences of {} patterns of parsers of the user's own in both matchers; {} operations (parse, build, clone, strict and lenient loads, compile); at every point where the library calls a parser, source, matcher or factory: {} other operations on the same and on another thread, and a panic", k, n, OUTERS, INNER.len());
    Family::new(&format!("callbacks-{}", k), bound, n.pow(k as u32) * 2, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let kind = KINDS[(item % 2) as usize];
        let toks: Vec<&Tokens> = (0..k).map(|j| &pool[(item / 2 / n.pow(j as u32) % n) as usize]).collect();
        explore(&toks, kind, true, l)
    })
}

/// The same with the library's own parsers, interrupted at every log record at trace level.
pub fn log_callbacks(k: usize, all: bool) -> Family {
    let mut pool = pool();
    if !all {
        pool = vec![pool[0].clone(), pool[3].clone(), pool[4].clone(), pool[5].clone()];
    }
    let n = pool.len() as u64;
    let bound = format!("all {}-sequences of {} patterns in both matchers; {} operations, interrupted at every log record at trace level by {} other operations on the same and on another thread, and by a panic of the logger", k, n, OUTERS, INNER.len());
    Family::new(&format!("log-callbacks-{}", k), bound, n.pow(k as u32) * 2, move |item, l| {
        logcap::set_level(LogLevelFilter::Trace);
        logcap::set_callback(Some(log_tick));
        let kind = KINDS[(item % 2) as usize];
        let toks: Vec<&Tokens> = (0..k).map(|j| &pool[(item / 2 / n.pow(j as u32) % n) as usize]).collect();
        let r = explore(&toks, kind, false, l);
        logcap::set_callback(None);
        r
    })
}

fn log_tick() {
    tick("log of a logger");
}
