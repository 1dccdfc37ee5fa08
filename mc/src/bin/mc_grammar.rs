//! C08 (what a pattern text denotes), C09 (malformed texts), C10 (literal text).
use actiondb::grammar::parser::{pattern, pattern_with_factory, ParseError};
use actiondb::matcher::compiled_pattern::{CompiledPattern, TokenType};
use actiondb::matcher::{Matcher, Pattern};
use actiondb::parsers::{ObjectSafeHash, OptionalParameter, ParseResult, Parser, ParserFactory};
use mc::engine::{self, guard, violation, Check, Family, Local, Outcome, Tier};
use mc::gram::{recognise, Bad, Item, Limit};
use mc::model::{self, escape, link_greedy, lit, Tok, Tokens};
use mc::real::{self, ask, new_matcher, KINDS};
use mc::strings::{all_sequences, all_strings, ladder};

// ------------------------------------------------ a factory that records what it was asked for

#[derive(Debug)]
struct Recorded {
    what: String,
}

impl ObjectSafeHash for Recorded {
    fn hash_os(&self) -> u64 {
        0
    }
}

impl Parser for Recorded {
    fn parse<'a, 'b>(&'a self, _: &'b str) -> Option<ParseResult<'a, 'b>> {
        None
    }
    fn name(&self) -> Option<&str> {
        Some(&self.what)
    }
    fn set_name(&mut self, _: Option<String>) {}
    fn boxed_clone(&self) -> Box<dyn Parser> {
        Box::new(Recorded { what: self.what.clone() })
    }
}

struct Recorder;

fn params_text(p: Option<Vec<OptionalParameter>>) -> String {
    // an empty list of limits and no list at all mean the same
    let v: Vec<String> = p.unwrap_or(vec![]).iter().map(|p| match *p { OptionalParameter::Int(k, v) => format!("{}={}", k, v) }).collect();
    format!("{:?}", v)
}

thread_local!(static CALLS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) });

fn made(what: String) -> Box<dyn Parser> {
    CALLS.with(|c| c.borrow_mut().push(what.clone()));
    Box::new(Recorded { what })
}

impl ParserFactory for Recorder {
    fn new_set<'a>(set: &str, name: Option<&str>, opt_params: Option<Vec<OptionalParameter<'a>>>) -> Box<dyn Parser> {
        made(format!("SET {:?} {:?} {}", set, name, params_text(opt_params)))
    }
    fn new_int(name: Option<&str>, opt_params: Option<Vec<OptionalParameter>>) -> Box<dyn Parser> {
        made(format!("INT {:?} {}", name, params_text(opt_params)))
    }
    fn new_greedy(name: Option<&str>, end_string: Option<&str>) -> Box<dyn Parser> {
        made(format!("GREEDY {:?} {:?}", name, end_string))
    }
}

fn recorded(cp: &CompiledPattern) -> Vec<String> {
    cp.iter().map(|t| match *t {
        TokenType::Literal(ref l) => format!("LITERAL {:?}", l),
        TokenType::Parser(ref p) => p.name().unwrap_or("?").to_owned(),
    }).collect()
}

fn denoted(items: &[Item]) -> Vec<String> {
    let ps = |p: &Option<Vec<(Limit, usize)>>| {
        let v: Vec<String> = p.as_ref().map_or(vec![], |p| p.iter().map(|&(l, v)| format!("{}={}", match l { Limit::Min => "min_len", Limit::Max => "max_len" }, v)).collect());
        format!("{:?}", v)
    };
    items.iter().map(|i| match *i {
        Item::Lit(ref l) => format!("LITERAL {:?}", l),
        Item::Set { ref set, ref params, ref name } => format!("SET {:?} {:?} {}", set, name, ps(params)),
        Item::Int { ref params, ref name } => format!("INT {:?} {}", name, ps(params)),
        Item::Greedy { ref name, ref end } => format!("GREEDY {:?} {:?}", name, end),
    }).collect()
}

/// The same in terms of the matching model; of a limit given twice the last one counts.
fn tokens(items: &[Item]) -> Option<Tokens> {
    fn lims(p: &Option<Vec<(Limit, usize)>>) -> Option<(Option<usize>, Option<usize>)> {
        let (mut min, mut max) = (None, None);
        for &(l, v) in p.as_ref().map_or(&[][..], |v| &v[..]) {
            match l { Limit::Min => min = Some(v), Limit::Max => max = Some(v) }
        }
        Some((min, max))
    }
    items.iter().map(|i| Some(match *i {
        Item::Lit(ref l) => Tok::Lit(l.clone()),
        Item::Set { ref set, ref params, ref name } => { let (min, max) = lims(params)?; Tok::Set { set: set.clone(), name: name.clone(), min, max } }
        Item::Int { ref params, ref name } => { let (min, max) = lims(params)?; Tok::Int { name: name.clone(), min, max } }
        Item::Greedy { ref name, ref end } => Tok::Greedy { name: name.clone(), end: end.clone() },
    })).collect()
}

const PROBES: [&str; 12] = ["", "1", "12", "123 b", "a", "ab1", "aé", "é", "a}b", "%{a", "a\\b", "x%"];

fn shown(text: &str) -> String {
    if text.len() > 300 { format!("{} bytes: {:?}...", text.len(), text.chars().take(120).collect::<String>()) } else { format!("{:?}", text) }
}

/// A well-formed text compiles to exactly what it denotes.
fn well_formed(text: &str, items: &[Item], full: bool, l: &mut Local) -> Outcome {
    let script = || format!("pattern text: {}\n", shown(text));
    l.traces += 1;
    l.transitions += items.len() as u64;
    CALLS.with(|c| c.borrow_mut().clear());
    let got = match guard(|| pattern_with_factory::<Recorder>(text)) {
        Err(e) => return violation(format!("compiling the pattern panics: {}", e), script()),
        Ok(Err(e)) => return violation(format!("a well-formed pattern is rejected: {}", e), script()),
        Ok(Ok(cp)) => recorded(&cp),
    };
    let exp = denoted(items);
    if got != exp {
        return violation("the pattern compiles to something else".to_owned(), format!("{}compiled: {:?}\ndenoted:  {:?}\n", script(), got, exp));
    }
    // the factory is asked for every parser of the pattern once
    let mut calls = CALLS.with(|c| c.borrow().clone());
    let mut wanted: Vec<String> = exp.iter().zip(items).filter(|e| match *e.1 { Item::Lit(_) => false, _ => true }).map(|e| e.0.clone()).collect();
    calls.sort();
    wanted.sort();
    if calls != wanted {
        return violation("the parser factory is asked for other parsers than the pattern has".to_owned(), format!("{}asked for: {:?}\ndenoted:   {:?}\n", script(), calls, exp));
    }
    let cp = match guard(|| pattern(text)) {
        Err(e) => return violation(format!("compiling the pattern panics: {}", e), script()),
        Ok(Err(e)) => return violation(format!("a well-formed pattern is rejected: {}", e), script()),
        Ok(Ok(cp)) => cp,
    };
    if cp.len() != items.len() {
        return violation(format!("the pattern has {} tokens instead of {}", cp.len(), items.len()), script());
    }
    let toks = match tokens(items) { Some(t) => t, None => return Ok(()) };
    for (i, (t, c)) in toks.iter().zip(cp.iter()).enumerate() {
        match (t, c) {
            (&Tok::Lit(ref e), &TokenType::Literal(ref g)) => if e != g {
                return violation(format!("token {} is the literal {:?} instead of {:?}", i, g, e), script());
            },
            (&Tok::Lit(_), _) | (_, &TokenType::Literal(_)) => return violation(format!("token {} is of the wrong kind", i), script()),
            (t, &TokenType::Parser(ref p)) => {
                if p.name() != t.name() {
                    return violation(format!("token {} has the name {:?} instead of {:?}", i, p.name(), t.name()), script());
                }
                if p.hash_os() != real::parser(t).hash_os() {
                    return violation(format!("token {} is not the parser {:?}: {:?}", i, t, p), script());
                }
                if let Tok::Set { ref set, .. } = *t {
                    l.transitions += 1;
                    let got = guard(|| p.parse(set).map(|r| r.value().len()));
                    if got != Ok(t.consume(set)) {
                        return violation(format!("token {} consumes {:?} bytes of its own characters instead of {:?}", i, got, t.consume(set)), script());
                    }
                }
                if full {
                    for x in PROBES.iter() {
                        l.transitions += 1;
                        let got = guard(|| p.parse(x).map(|r| r.value().len()));
                        if got != Ok(t.consume(x)) {
                            return violation(format!("token {} consumes {:?} of {:?} instead of {:?}", i, got, x, t.consume(x)), script());
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

const WORDS: [&str; 12] = ["%{", "(", ",", ":", "=", "}", " ", "GREEDY", "INT", "SET", "min_len", "max_len"];

fn rejected(text: &str, bad: &Bad, e: &ParseError, l: &mut Local) -> Outcome {
    let script = || format!("pattern text: {}\nerror: {:?}\nthe item at fault starts at byte {}, the text becomes invalid at byte {}\n", shown(text), e, bad.item, bad.first);
    l.outcome(&(e.offset - bad.item.min(e.offset), e.line, bad.first - bad.item));
    if e.offset > text.len() || !text.is_char_boundary(e.offset) {
        return violation(format!("the error offset {} is not a position of the text", e.offset), script());
    }
    if e.offset > bad.last {
        return violation(format!("the error offset {} is behind the place at fault", e.offset), script());
    }
    if e.offset < bad.item {
        return violation(format!("the error offset {} is before the item at fault", e.offset), script());
    }
    let before = &text.as_bytes()[..e.offset];
    let line = 1 + before.iter().filter(|b| **b == b'\n').count();
    let column = 1 + e.offset - before.iter().rposition(|b| *b == b'\n').map_or(0, |p| p + 1);
    if (e.line, e.column) != (line, column) {
        return violation(format!("the error is reported at {}:{}, its offset {} is at {}:{}", e.line, e.column, e.offset, line, column), script());
    }
    // words of the language that are said to be possible there have to be so
    if e.expected.is_empty() {
        return violation("the error does not say what is expected".to_owned(), script());
    }
    for x in e.expected.iter().filter(|x| WORDS.contains(x)) {
        let longer = format!("{}{}", &text[..e.offset], x);
        l.transitions += 1;
        if let Err(b) = recognise(&longer) {
            if b.first < longer.len() {
                return violation(format!("{:?} is said to be possible at byte {}, but {:?} is not the beginning of any pattern", x, e.offset, longer), script());
            }
        }
    }
    // and the other way round, where the error points to the very place that makes the text invalid
    if e.offset == bad.first && !e.expected.contains("<character>") {
        for x in ["(", ",", ":", "=", "}"].iter().filter(|x| !e.expected.contains(**x)) {
            let longer = format!("{}{}", &text[..e.offset], x);
            l.transitions += 1;
            if recognise(&longer).map_or_else(|b| b.first >= longer.len(), |_| true) {
                return violation(format!("{:?} is possible at byte {}, but not among what is said to be expected", x, e.offset), script());
            }
        }
    }
    match guard(|| e.to_string()) {
        Err(p) => violation(format!("printing the error panics: {}", p), script()),
        Ok(ref s) if e.expected.iter().any(|x| !s.contains(x) && !s.contains(&x.escape_default().to_string())) => violation(format!("the printed error {:?} does not name everything that is expected", s), script()),
        Ok(s) => if s.contains(&format!("{}:{}", line, column)) { Ok(()) } else { violation(format!("the printed error {:?} lacks the position {}:{}", s, line, column), script()) },
    }
}

/// A malformed text is rejected with the right position.
fn malformed(text: &str, bad: &Bad, l: &mut Local) -> Outcome {
    l.traces += 1;
    l.transitions += 2;
    let script = || format!("pattern text: {}\n", shown(text));
    let a = match guard(|| pattern(text).map(|cp| format!("{:?}", cp))) {
        Err(e) => return violation(format!("compiling the text panics: {}", e), script()),
        Ok(Ok(cp)) => return violation(format!("a malformed text is accepted as {}", cp), script()),
        Ok(Err(e)) => e,
    };
    rejected(text, bad, &a, l)?;
    match guard(|| pattern_with_factory::<Recorder>(text).map(|cp| recorded(&cp))) {
        Err(e) => violation(format!("compiling the text with another factory panics: {}", e), script()),
        Ok(Ok(cp)) => violation(format!("a malformed text is accepted as {:?} with another factory", cp), script()),
        Ok(Err(e)) => rejected(text, bad, &e, l),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Which {
    Good,
    Bad,
}

fn text(which: Which, t: &str, full: bool, l: &mut Local) -> Outcome {
    match recognise(t) {
        Ok(items) => if which == Which::Good {
            l.states += 1;
            l.outcome(&denoted(&items).iter().map(|s| s.split(' ').next().unwrap().to_owned()).collect::<Vec<_>>());
            l.sample(|| format!("{:?} -> {:?}", t, items));
            well_formed(t, &items, full, l)
        } else { Ok(()) },
        Err(bad) => if which == Which::Bad {
            l.states += 1;
            l.sample(|| format!("{:?} -> item {}, invalid from {}", t, bad.item, bad.first));
            malformed(t, &bad, l)
        } else { Ok(()) },
    }
}

/// Every sequence of exactly or at most `len` lexemes after each prefix.
fn lexemes(name: &str, which: Which, prefixes: Vec<&'static str>, lex: Vec<&'static str>, len: u32, suffixes: Vec<&'static str>) -> Family {
    let n = lex.len() as u64;
    // an item fixes the prefix, the suffix and all but the last `tail` lexemes; shorter strings are enumerated too
    let tail = len.min(3);
    let head = len - tail;
    let mut heads: u64 = 0;
    for h in 0..head + 1 {
        heads += n.pow(h);
    }
    let combos = (prefixes.len() * suffixes.len()) as u64;
    let bound = format!("every sequence of at most {} lexemes out of {:?} after {:?} and before {:?}", len, lex, prefixes, suffixes);
    Family::new(name, bound, heads * combos, move |item, l| {
        let (pre, suf) = { let c = (item % combos) as usize; (prefixes[c % prefixes.len()], suffixes[c / prefixes.len()]) };
        let mut h = item / combos;
        let mut hl = 0;
        while h >= n.pow(hl) {
            h -= n.pow(hl);
            hl += 1;
        }
        let mut t = pre.to_owned();
        let mut k = h;
        for _ in 0..hl {
            t.push_str(lex[(k % n) as usize]);
            k /= n;
        }
        // heads shorter than `head` stand for themselves alone, full heads get all tails
        let base = t.len();
        let tails = if hl == head { (0..tail + 1).map(|x| n.pow(x)).sum::<u64>() } else { 1 };
        for x in 0..tails {
            t.truncate(base);
            let mut x = x;
            let mut tl = 0;
            while x >= n.pow(tl) {
                x -= n.pow(tl);
                tl += 1;
            }
            for _ in 0..tl {
                t.push_str(lex[(x % n) as usize]);
                x /= n;
            }
            t.push_str(suf);
            text(which, &t, false, l)?;
        }
        Ok(())
    })
}

fn listed(name: &str, what: &str, which: Which, full: bool, texts: Vec<String>) -> Family {
    let chunk = 64;
    let items = (texts.len() + chunk - 1) / chunk;
    Family::new(name, format!("{}: {} texts", what, texts.len()), items as u64, move |item, l| {
        let lo = item as usize * chunk;
        for t in &texts[lo..(lo + chunk).min(texts.len())] {
            text(which, t, full, l)?;
        }
        Ok(())
    })
}

/// One text after another one, all ordered pairs, and each after very many of one.
fn after(which: Which, texts: Vec<String>, counts: Vec<usize>) -> Family {
    let n = texts.len() as u64;
    Family::new("after", format!("all ordered pairs of {} texts, correct and malformed, one compiled after the other; all of them after {:?} compilations of each", n, counts), n, move |item, l| {
        let first = &texts[item as usize];
        let mut done = 0;
        for &count in &counts {
            while done < count {
                let _ = guard(|| pattern(first).is_ok());
                done += 1;
            }
            for t in &texts {
                let _ = guard(|| pattern(first).is_ok());
                l.transitions += 1;
                text(which, t, false, l).map_err(|mut v| { v.script = format!("after {} compilations of {}\n{}", done, shown(first), v.script); v })?;
            }
        }
        Ok(())
    })
}

const LEX: [&str; 18] = ["%{", "}", "INT", "SET", "GREEDY", "(", ")", "\"", ",", " ", "min_len", "max_len", "=", "1", ":", "n", "-", "\n"];
const INNER: [&str; 16] = ["}", "(", ")", "\"", ",", " ", "min_len", "max_len", "=", "1", "0", ":", "n", "-", ".", "é"];

fn names() -> Vec<&'static str> {
    vec!["", ":a", ":_", ":.", ":Z", ":a1", ":a.b", ":.dict.key", ":_9", ":MIN_len", ":a-b", ":a-", ":INT", ":aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]
}

fn param_lists() -> Vec<Vec<&'static str>> {
    let all = ["min_len=0", "min_len=1", "max_len=2", "max_len=10", "min_len=007", "max_len=18446744073709551615", "min_len=4294967296"];
    let mut v = vec![vec![]];
    for a in all.iter() {
        v.push(vec![*a]);
        for b in all.iter() {
            v.push(vec![*a, *b]);
        }
    }
    v.push(vec!["min_len=1", "max_len=2", "min_len=3"]);
    v.push(vec!["max_len=1", "max_len=2", "max_len=3", "min_len=3"]);
    v
}

const COMMAS: [&str; 4] = [",", ", ", ",  ", ",     "];

/// Every way to write one item.
fn items_texts() -> Vec<String> {
    let mut v = vec![];
    for n in names() {
        v.push(format!("%{{GREEDY{}}}", n));
        v.push(format!("%{{INT{}}}", n));
        v.push(format!("%{{SET(\"abc\"){}}}", n));
        for p in param_lists() {
            for (i, c) in COMMAS.iter().enumerate() {
                if p.len() < 2 && i > 0 {
                    continue;
                }
                v.push(format!("%{{INT({}){}}}", p.join(c), n));
            }
            for c in COMMAS.iter() {
                for d in COMMAS.iter().take(if p.len() < 2 { 1 } else { 4 }) {
                    v.push(format!("%{{SET(\"abc\"{}{}){}}}", c, p.join(d), n));
                }
            }
        }
    }
    v
}

fn set_texts(max: usize) -> Vec<String> {
    let sets: Vec<String> = all_strings(&['a', ')', '}', '%', '{', ',', ':', '\\', ' ', '\n', 'é', '0', '-', '€', '😀', '\t', '\''], max).into_iter().filter(|s| !s.is_empty()).collect();
    let mut sets = sets;
    // what escapes a literal is plain text in a set
    sets.extend(all_strings(&['\\', '%', '{', 'a'], max + 3).into_iter().filter(|s| s.contains("\\%\\")));
    for esc in ["\\n", "\\t", "\\u00e9", "\\x41", "&amp;", "%25", "%7B", "a-z", "[:alpha:]", "\\d", "\\w", "^a", "\\\\"].iter() {
        sets.push(esc.to_string());
        sets.push(format!("{}b", esc));
    }
    let mut v = vec![];
    for s in &sets {
        for (p, n) in [("", ""), (",min_len=2", ":n"), (", max_len=1,min_len=1", "")].iter() {
            v.push(format!("%{{SET(\"{}\"{}){}}}", s, p, n));
        }
    }
    v
}

fn piece_pool() -> Vec<&'static str> {
    vec!["%{INT}", "%{INT:n}", "%{INT(min_len=1):m}", "%{INT()}", "%{SET(\"ab\"):s}", "%{SET(\"é}\",max_len=2)}", "%{GREEDY}", "%{GREEDY:g}",
         "a", "%", "{", "}", "\\", "\"", ":", "é", "\n", " ", "\\%\\{", "INT", "-"]
}

fn sequences_texts(pool: &[&'static str], max: usize) -> Vec<String> {
    let mut v: Vec<String> = all_sequences(pool.len(), max).into_iter().filter(|s| !s.is_empty()).map(|s| s.iter().map(|i| pool[*i]).collect()).collect();
    v.sort();
    v.dedup();
    v
}

fn scalar_texts(which: Which) -> Family {
    let all: Vec<char> = (0..0x110000u32).filter_map(std::char::from_u32).collect();
    let chunk = 4096;
    let items = (all.len() + chunk - 1) / chunk;
    Family::new("scalars", "every Unicode scalar value as literal, in a character set, in a name, as end string and in every other place of an item".to_owned(), items as u64, move |item, l| {
        let lo = item as usize * chunk;
        for &c in &all[lo..(lo + chunk).min(all.len())] {
            for t in [format!("{}", c), format!("a{}%{{INT:n}}", c), format!("%{{SET(\"{}\"):s}}", c), format!("%{{SET(\"a{}b\")}}", c), format!("%{{INT:a{}}}", c), format!("%{{INT:{}}}", c),
                      format!("%{{GREEDY}}{}%{{INT}}", c), format!("%{{INT{}}}", c), format!("%{}INT}}", c), format!("%{{INT(min_len={})}}", c), format!("%{{INT(min_len=1{})}}", c),
                      format!("%{{{}INT}}", c), format!("%{{SET({}a\")}}", c), format!("%{{SET(\"a\"{})}}", c), format!("%{{SET(\"a\",{}min_len=1)}}", c), format!("%{{GREEDY{}", c), format!("é\n{}%{{X", c), format!("{}\r\n%{{", c)] {
                text(which, &t, false, l)?;
            }
        }
        Ok(())
    })
}

/// Errors (and none) behind long beginnings of every kind.
fn far_texts(quick: bool) -> Vec<String> {
    let mut v = vec![];
    for n in ladder(if quick { 70 } else { 300 }, if quick { 1100 } else { 70000 }) {
        for unit in ["a", "é", "€", "😀", "aé", "é\n", "\r\n", "éé€\na\r", "%{INT}", "é%{INT:n}", "\\%\\{"] {
            let head: String = if unit.starts_with("é%") || unit.starts_with('%') || unit.starts_with('\\') { unit.repeat(n) } else { unit.chars().cycle().take(n).collect() };
            for tail in ["", "%{", "%{INT:é}", "é%{X}", "\né%{INT(min_len=1é)}", "%{SET(\"é", "%{INT(max_len=99999999999999999999)}", "%{INT:n}é"] {
                v.push(format!("{}{}", head, tail));
            }
            if n <= 300 && !unit.contains('%') {
                // long inside an item
                v.push(format!("%{{SET(\"{}\"):n}}", head));
                v.push(format!("%{{SET(\"{}\":n}}", head));
                v.push(format!("é%{{GREEDY:g}}{}%{{INT:", head));
            }
        }
    }
    v
}

/// Characters that editors and terminals count differently, once and many times, before the place at fault.
fn repeated_texts(quick: bool) -> Vec<String> {
    let units = ["\t", "\r", "\u{b}", "\u{c}", "\u{8}", "\u{0}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{2029}", "\u{200b}", "\u{200d}", "\u{feff}", "\u{ad}", "\u{301}", "e\u{301}", "\u{3000}", "\u{4e00}", "\u{ff21}", "\u{1f468}\u{200d}\u{1f469}", "\u{1f1e6}\u{1f1fa}", "\u{202e}", "\u{10ffff}", "\u{1b}[1m", "\\", "\"", "'", "%", "{", "}", "&amp;", "\\n", "\\t", " ", "0"];
    let counts: Vec<usize> = (1..if quick { 21 } else { 70 }).chain([31, 32, 33, 64, 65, 100]).collect();
    let mut v = vec![];
    for u in units {
        for &n in &counts {
            for between in ["", "a", "\n", "ab ", "%{INT:n}"] {
                let head: String = (0..n).map(|_| format!("{}{}", between, u)).collect();
                for tail in ["%{FOO}", "a%{", "\n%{INT(x)}", "%{INT:n}"] {
                    v.push(format!("{}{}", head, tail));
                }
            }
            v.push(format!("%{{SET(\"{}\"}}", u.repeat(n)));
            v.push(format!("%{{SET(\"{}\"):n}}", u.repeat(n)));
        }
    }
    v
}

/// Lines and columns and offsets around 2^16 (thorough: 2^17, 2^20).
fn very_far_texts(quick: bool) -> Vec<String> {
    let mut v = vec![];
    for k in if quick { vec![16] } else { vec![15, 16, 17, 20] } {
        for d in [0usize, 1, 2, 3] {
            let n = (1usize << k) - 2 + d;
            for unit in ["a", "\u{e9}", "\n", "a\n", "\u{20ac}"] {
                for tail in ["%{", "%{INT:\u{e9}}", "\n%{X}", "%{INT:n}"] {
                    v.push(format!("{}{}", unit.repeat(n), tail));
                }
                if quick && unit.len() > 1 && d > 1 {
                    break;
                }
            }
        }
    }
    v
}

fn length_texts(max: usize) -> Vec<String> {
    let mut sizes: Vec<usize> = (1..65).collect();
    let mut s = 65;
    while s <= max {
        sizes.push(s);
        s = s * 5 / 4;
    }
    let mut v = vec![];
    for n in sizes {
        v.push("x".repeat(n));
        v.push("é".repeat(n));
        v.push("%".repeat(n));
        v.push("%{INT:n}".repeat(n));
        v.push("%{INT:n} ".repeat(n));
        v.push("%{GREEDY:g};".repeat(n));
        v.push("%{GREEDY}".repeat(n));
        v.push(format!("%{{INT:{}}}", "n".repeat(n)));
        v.push(format!("%{{SET(\"{}\")}}", "ab".repeat(n)));
        v.push(format!("%{{INT(min_len={}1)}}", "0".repeat(n)));
        v.push(format!("%{{SET(\"a\",{}max_len=1)}}", " ".repeat(n)));
        v.push(format!("%{{INT({})}}", vec!["min_len=1"; n].join(", ")));
        v.push("\\%\\{".repeat(n));
        v.push("a\n".repeat(n));
        // and the same lengths in texts that are not patterns
        v.push(format!("{}%{{", "x".repeat(n)));
        v.push(format!("{}%{{INT", "é\n".repeat(n)));
        v.push(format!("{}%{{INT:", "\r\n".repeat(n)));
        v.push(format!("{}%{{INT:-}}", "%{INT:n}".repeat(n)));
        v.push(format!("%{{INT(min_len=1{})}}", "0".repeat(n)));
        v.push(format!("%{{INT:{}-}}", "n".repeat(n)));
        v.push(format!("%{{SET(\"{}", "ab".repeat(n)));
        v.push(format!("%{{INT({},)}}", vec!["min_len=1"; n].join(", ")));
    }
    v
}

/// sets with very many different characters, of every size of a ladder
fn big_sets(quick: bool) -> Vec<String> {
    let max = if quick { 40000 } else { 0x30000 };
    let mut v = vec![];
    for n in ladder(if quick { 20 } else { 300 }, max) {
        for first in ['!', 'é', '\u{4e00}'] {
            // '"' ends a set
            let set: String = (first as u32..).filter_map(|c| if c > 0x10ffff { Some(' ') } else { std::char::from_u32(c) }).filter(|&c| c != '"').take(n).collect();
            for name in ["", ":s"] {
                v.push(format!("%{{SET(\"{}\"){}}}", set, name));
                v.push(format!("x%{{SET(\"{}\", min_len=1){}}}y", set, name));
            }
        }
    }
    v
}

fn number_texts() -> Vec<String> {
    let mut nums: Vec<String> = (0..300u32).map(|n| n.to_string()).collect();
    for k in 0..80u32 {
        let p = 1u128 << k;
        for d in 0..3u128 {
            nums.push((p + d).to_string());
            nums.push((p.saturating_sub(d)).to_string());
            nums.push(format!("00{}", p + d));
        }
    }
    for k in 0..40usize {
        nums.push(format!("1{}", "0".repeat(k)));
        nums.push("9".repeat(k + 1));
        nums.push(format!("{}18446744073709551615", "0".repeat(k)));
        nums.push(format!("{}18446744073709551616", "0".repeat(k)));
    }
    nums.push("18446744073709551619".to_owned());
    nums.push("18446744073709551625".to_owned());
    nums.push("28446744073709551615".to_owned());
    let mut v = vec![];
    for n in &nums {
        v.push(format!("%{{INT(min_len={})}}", n));
        v.push(format!("a%{{INT(min_len=1, max_len={}):n}}b", n));
        v.push(format!("%{{SET(\"ab\",max_len={})}}", n));
        v.push(format!("%{{SET(\"ab\", min_len={},max_len=3)}}", n));
        v.push(format!("%{{INT(max_len=-{})}}", n));
        v.push(format!("%{{INT(max_len={}", n));
        v.push(format!("é\n%{{INT(max_len={}a)}}", n));
    }
    v
}

fn bases() -> Vec<&'static str> {
    vec!["a", "%{INT}", "%{INT:n}", "%{GREEDY}", "%{GREEDY:g}x", "%{SET(\"ab\")}", "%{SET(\"é\"):s}", "%{INT(min_len=1)}", "%{INT(min_len=1, max_len=20):n}", "%{INT()}",
         "%{SET(\"a\",min_len=1)}", "%{SET(\"a\", max_len=1, min_len=0):x.y}", "%{SET(\"a\",)}", "a%{INT:a}b%{INT:b}c", "%{GREEDY:a}, %{GREEDY:b}", "é\n%{INT:n}\r\n€", "%%{INT}%", "\\%\\{%{INT}", "%{INT}%{SET(\"x\")}%{GREEDY}",
         "line\nother\r\n%{SET(\"\n\"):n}"]
}

const EDIT: [&str; 27] = ["%", "{", "}", "(", ")", "\"", ",", " ", ":", "=", "-", "_", ".", "0", "9", "a", "Z", "é", "\n", "\r\n", "\\", "%{", "INT", "min_len=", "18446744073709551616", "%{INT}", "\u{0}"];

fn edits(s: &str) -> Vec<String> {
    let mut v = vec![];
    let bounds: Vec<usize> = s.char_indices().map(|x| x.0).chain(Some(s.len())).collect();
    for (i, &b) in bounds.iter().enumerate() {
        v.push(s[..b].to_owned());
        v.push(s[b..].to_owned());
        for e in EDIT.iter() {
            v.push(format!("{}{}{}", &s[..b], e, &s[b..]));
        }
        if i + 1 < bounds.len() {
            let n = bounds[i + 1];
            v.push(format!("{}{}", &s[..b], &s[n..]));
            v.push(format!("{}{}{}", &s[..n], &s[b..n], &s[n..]));
            for e in EDIT.iter() {
                v.push(format!("{}{}{}", &s[..b], e, &s[n..]));
            }
            let c: String = s[b..n].chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            v.push(format!("{}{}{}", &s[..b], c, &s[n..]));
            if i + 2 < bounds.len() {
                let m = bounds[i + 2];
                v.push(format!("{}{}{}{}", &s[..b], &s[n..m], &s[b..n], &s[m..]));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn edited(which: Which, bases: Vec<String>, depth: usize) -> Family {
    let firsts: Vec<String> = {
        let mut v: Vec<String> = bases.iter().flat_map(|b| edits(b)).collect();
        v.extend(bases.iter().cloned());
        v.sort();
        v.dedup();
        v
    };
    let name = format!("edits-{}", depth);
    let bound = format!("all texts at most {} edits (insert, replace, delete, swap, duplicate, truncate, recase; {} inserted pieces) away from {} patterns", depth, EDIT.len(), bases.len());
    let chunk = if depth == 1 { 256 } else { 1 };
    let items = (firsts.len() + chunk - 1) / chunk;
    Family::new(&name, bound, items as u64, move |item, l| {
        let lo = item as usize * chunk;
        for t in &firsts[lo..(lo + chunk).min(firsts.len())] {
            text(which, t, false, l)?;
            if depth > 1 {
                for u in edits(t) {
                    text(which, &u, false, l)?;
                }
            }
        }
        Ok(())
    })
}

fn char_strings(which: Which, chars: &'static [&'static str], len: u32, pre: &'static str, name: &str) -> Family {
    lexemes(name, which, vec![pre], chars.to_vec(), len, vec![""])
}

/// Error positions in texts with every kind of line end: all texts of lines before an item at fault.
fn line_texts(max: usize) -> Vec<String> {
    let mut v = vec![];
    for s in all_sequences(6, max) {
        let head: String = s.iter().map(|i| ["\n", "\r\n", "\r", "a", "é", "%{INT}"][*i]).collect();
        for t in ["%{", "%{X}", "%{INT:\n}", "%{SET(\"\r\n\n\"", "%{INT(min_len=1,\n)}", "%{GREEDY\r\n}", "%{SET(\"\na\"):é}", "%{INT(max_len=99999999999999999999)}\n", "%{SET(\"\n\",min_len=\n", "%{\r\n"].iter() {
            v.push(format!("{}{}", head, t));
        }
    }
    v
}

fn spaces(which: Which, tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let mut f = vec![
        listed("items", "every way to write one item (names, argument lists, blanks)", which, true, {
            let mut v = items_texts();
            let w: Vec<String> = v.iter().flat_map(|t| vec![format!("x{}y", t), format!("{}{}", t, t), format!("%{}", t)]).collect();
            v.extend(w);
            v
        }),
        listed("sets", "every character set of the bound", which, true, set_texts(if quick { 3 } else { 4 })),
        listed("pieces", &format!("all sequences of up to {} pieces out of {:?}", if quick { 4 } else { 5 }, piece_pool()), which, true, sequences_texts(&piece_pool(), if quick { 4 } else { 5 })),
        listed("big-sets", "character sets of every size of a ladder of up to 40000 (thorough: 196608) characters", which, false, big_sets(quick)),
        listed("numbers", "limits around every power of two and ten, with leading zeros", which, true, number_texts()),
        listed("lengths", "long literals, names, sets, lists, patterns", which, false, length_texts(if quick { 3000 } else { 20000 })),
        listed("lines", "every sequence of line ends and characters before an item", which, true, line_texts(if quick { 5 } else { 6 })),
        listed("far", "long beginnings of eleven kinds (multi-byte, lines, items, escapes) followed by correct and faulty ends", which, false, far_texts(quick)),
        listed("very-far", "beginnings of about 2^16 (thorough: 2^15 to 2^20) characters or lines before correct and faulty ends", which, false, very_far_texts(quick)),
        listed("repeated", "36 characters and clusters that can be counted in several ways, 1 to 20 times (thorough: 70) and up to 100, plain and with others in between, before correct and faulty ends", which, false, repeated_texts(quick)),
        scalar_texts(which),
        after(which, {
            let pool = piece_pool();
            let mut v: Vec<String> = pool.iter().map(|p| p.to_string()).collect();
            v.extend(["", "%{", "%{INT", "%{INT:", "%{FOO}", "a\nb%{SET(\"", "%{SET(\"a\",min_len=99999999999999999999)}", "\r\n\r\n%{INT(", "é%{INT(min_len)}", "%{SET(\"\")}", "%{INT:a}%{INT:a}%{", "%{GREEDY:g}x%{SET(\"é\",max_len=2):s}y", "x\ny\nz%{INT(max_len=3):n}"].iter().map(|s| s.to_string()));
            v.sort();
            v.dedup();
            v
        }, if quick { vec![1, 257, 4097] } else { vec![1, 257, 4097, 65_540, 200_000] }),
        lexemes("lexemes", which, vec![""], LEX.to_vec(), if quick { 5 } else { 6 }, vec![""]),
        lexemes("lexemes-item", which, vec!["%{INT", "%{INT(", "%{SET(\"a\"", "%{GREEDY", "%{SET("], INNER.to_vec(), if quick { 5 } else { 6 }, vec!["", "}", ")}"]),
        char_strings(which, &["%", "{", "}", "\\", "a", "\n", "é"], if quick { 7 } else { 8 }, "", "characters"),
        edited(which, bases().iter().map(|s| s.to_string()).chain(if quick { vec![] } else { items_texts() }).collect(), 1),
    ];
    f.push(edited(which, if quick { vec!["%{INT:n}".to_owned(), "%{SET(\"a\")}".to_owned(), "%{GREEDY}x".to_owned(), "%{INT(min_len=1)}".to_owned()] } else { bases().iter().map(|s| s.to_string()).collect() }, 2));
    if !quick {
        f.push(edited_named("edits-2-long", which, vec!["%{SET(\"ab\", min_len=10,max_len=20):name.x}".to_owned(), "a %{INT(min_len=1):n}: %{GREEDY:g};\n%{SET(\"é\"):s}".to_owned()]));
    }
    f
}

fn edited_named(name: &str, which: Which, bases: Vec<String>) -> Family {
    let mut f = edited(which, bases, 2);
    f.name = name.to_owned();
    f
}

// ---------------------------------------------------------------- C10

fn check_literal(toks: &Tokens, msgs: &[String], l: &mut Local) -> Outcome {
    let src: String = model::source(toks);
    l.states += 1;
    for kind in KINDS.iter() {
        let script = |m: &str| format!("matcher: {:?}\npattern text: {:?}\ntokens meant: {:?}\nmessage: {:?}\n", kind, src, toks, m);
        let m = guard(|| pattern(&src).map(|cp| {
            let mut m = new_matcher(*kind);
            m.add_pattern(Pattern::new(None, real::uuid(0), cp, None, None, None));
            m
        }));
        let m = match m {
            Err(e) => return violation(format!("building the pattern panics: {}", e), script("")),
            Ok(Err(e)) => return violation(format!("the escaped text is rejected: {}", e), script("")),
            Ok(Ok(m)) => m,
        };
        for msg in msgs {
            l.traces += 1;
            l.transitions += 1;
            let exp = model::matches(toks, msg);
            let got = match guard(|| ask(&*m, msg)) {
                Err(e) => return violation(format!("parsing panics: {}", e), script(msg)),
                Ok(g) => g.map(|s| s.values),
            };
            if got != exp {
                return violation(format!("the message gives {:?} instead of {:?}", got, exp), script(msg));
            }
            l.outcome(&(exp.is_some(), exp.map_or(0, |v| v.iter().map(|x| x.1.len()).sum::<usize>())));
        }
    }
    Ok(())
}

fn neighbours(t: &str, alphabet: &[char]) -> Vec<String> {
    let mut v = vec![t.to_owned(), String::new(), escape(t), format!("\\{}", t)];
    let bounds: Vec<usize> = t.char_indices().map(|x| x.0).chain(Some(t.len())).collect();
    for (i, &b) in bounds.iter().enumerate() {
        for c in alphabet {
            v.push(format!("{}{}{}", &t[..b], c, &t[b..]));
            if i + 1 < bounds.len() {
                v.push(format!("{}{}{}", &t[..b], c, &t[bounds[i + 1]..]));
            }
        }
        if i + 1 < bounds.len() {
            v.push(format!("{}{}", &t[..b], &t[bounds[i + 1]..]));
        }
        v.push(t[..b].to_owned());
    }
    v.sort();
    v.dedup();
    v
}

fn writable(texts: Vec<String>) -> Vec<String> {
    texts.into_iter().filter(|t| !t.is_empty() && !t.contains("\\%\\{")).collect()
}

const LITCHARS: [char; 6] = ['\\', '%', '{', '}', 'a', 'é'];

fn chunked<T: Send + Sync + 'static, F: Fn(&T, &mut Local) -> Outcome + Sync + 'static>(name: &str, bound: String, chunk: usize, all: Vec<T>, f: F) -> Family {
    let items = (all.len() + chunk - 1) / chunk;
    Family::new(name, bound, items as u64, move |item, l| {
        let lo = item as usize * chunk;
        for t in &all[lo..(lo + chunk).min(all.len())] {
            f(t, l)?;
        }
        Ok(())
    })
}

fn shapes() -> Vec<(&'static str, fn(Tok, Tok) -> Tokens)> {
    use mc::model::{greedy, int, set};
    vec![
        ("before a parser", |t, _| vec![t, int("n")]),
        ("after a parser", |t, _| vec![int("n"), t]),
        ("between parsers", |t, _| vec![int("n"), t, int("m")]),
        ("after SET", |t, _| vec![set("a}", "s"), t, set("é%", "z")]),
        ("after GREEDY", |t, _| vec![greedy("g"), t]),
        ("after unnamed GREEDY", |t, _| vec![greedy(""), t]),
        ("between GREEDY and INT", |t, _| vec![greedy("g"), t, int("n")]),
        ("between two GREEDY", |t, u| vec![greedy("g"), t, greedy("h"), u]),
        ("before GREEDY", |t, _| vec![t, greedy("g")]),
        ("around GREEDY", |t, u| vec![t, greedy("g"), u]),
        ("around INT", |t, u| vec![t, int("n"), u]),
    ]
}

fn c10(tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let mut f = vec![];
    let short = writable(all_strings(&LITCHARS, 3));
    let msgs = all_strings(&LITCHARS, if quick { 4 } else { 5 });
    f.push(chunked("alone", format!("all {} texts of up to 3 characters out of {:?}, all {} messages of up to {} characters", short.len(), LITCHARS, msgs.len(), if quick { 4 } else { 5 }), 4, short.clone(), move |t, l| {
        l.sample(|| format!("{:?}", escape(t)));
        check_literal(&vec![lit(t)], &msgs, l)
    }));
    let n = if quick { 6 } else { 7 };
    let longer = writable(all_strings(&LITCHARS, n));
    f.push(chunked("alone-neighbours", format!("all {} texts of up to {} characters out of {:?}, all messages one edit away, the escaped form, every prefix", longer.len(), n, LITCHARS), 64, longer, |t, l| {
        check_literal(&vec![lit(t)], &neighbours(t, &LITCHARS), l)
    }));
    // in every position of a pattern
    let n = if quick { 4 } else { 5 };
    let texts = writable(all_strings(&LITCHARS, n));
    let fills: Vec<&'static str> = vec!["", "1", "12", "a", "a}", "é", "%", "\\", "\\%", "%{", "1a"];
    for (what, shape) in shapes() {
        if what.contains("two") || what.contains("around") {
            let small = writable(all_strings(&LITCHARS, if quick { 2 } else { 3 }));
            let mut pairs = vec![];
            for a in &small {
                for b in small.iter().chain(["\\%%{a", "%{%{"].iter().map(|s| s.to_string()).collect::<Vec<_>>().iter()) {
                    pairs.push((a.clone(), b.clone()));
                }
            }
            let fills = fills.clone();
            f.push(chunked(&what.replace(' ', "-"), format!("all {} pairs of texts {}, messages made of every combination of {} fillings, the texts and their escaped forms", pairs.len(), what, fills.len()), 32, pairs, move |p, l| {
                let toks = link_greedy(shape(lit(&p.0), lit(&p.1)));
                let mut msgs = vec![];
                for a in &fills {
                    for b in &fills {
                        msgs.push(format!("{}{}{}{}", a, p.0, b, p.1));
                        msgs.push(format!("{}{}{}{}", p.0, a, p.1, b));
                        msgs.push(format!("{}{}{}{}", a, escape(&p.0), b, escape(&p.1)));
                    }
                }
                check_literal(&toks, &msgs, l)
            }));
        } else {
            let fills = fills.clone();
            f.push(chunked(&what.replace(' ', "-"), format!("all {} texts of up to {} characters {}, messages made of every combination of {} fillings around the text, its escaped form and its parts", texts.len(), n, what, fills.len()), 16, texts.clone(), move |t, l| {
                let toks = link_greedy(shape(lit(t), lit("x")));
                let mut msgs = vec![];
                let mut cores = vec![t.clone(), escape(t), format!("{}{}", t, t), t[..t.char_indices().last().unwrap().0].to_owned()];
                cores.dedup();
                for a in &fills {
                    for b in &fills {
                        for c in &cores {
                            msgs.push(format!("{}{}{}", a, c, b));
                        }
                    }
                }
                check_literal(&toks, &msgs, l)
            }));
        }
    }
    // every character
    let all: Vec<char> = (0..0x110000u32).filter_map(std::char::from_u32).collect();
    let step = if quick { 4 } else { 1 };
    let some: Vec<char> = all.iter().cloned().enumerate().filter(|&(i, c)| i % step == 0 || (c as u32) < 0x3000).map(|x| x.1).collect();
    let sn = some.len();
    f.push(chunked("scalars", format!("{} Unicode scalar values (all below U+3000, then every {}th), alone and with an escape, before and after GREEDY", sn, step), 1024, some, |&c, l| {
        let d = std::char::from_u32((c as u32) ^ 1).unwrap_or('x');
        let e = std::char::from_u32((c as u32) ^ 0x40).unwrap_or('y');
        let t = format!("{}", c);
        let u = format!("%{{{}", c);
        check_literal(&vec![lit(&t)], &[t.clone(), d.to_string(), e.to_string(), format!("{}{}", c, c), String::new()], l)?;
        check_literal(&link_greedy(vec![model::greedy("g"), lit(&t)]), &[format!("x{}", t), format!("{}{}", c, c), format!("x{}", d), "x".to_owned(), format!("x{}{}", c, d)], l)?;
        check_literal(&link_greedy(vec![lit(&t), model::greedy("g"), lit(&t), model::int("n")]), &[format!("{}x{}1", c, c), format!("{}{}{}1", c, c, c), format!("{}{}1", c, d), format!("{}x{}", c, c)], l)?;
        check_literal(&vec![model::int("n"), lit(&t), model::int("m")], &[format!("1{}2", c), format!("1{}2", d), "12".to_owned(), format!("1{}{}2", c, c)], l)?;
        check_literal(&vec![lit(&u)], &[u.clone(), format!("%{{{}", d), format!("%{}", c), escape(&u)], l)?;
        check_literal(&link_greedy(vec![model::greedy("g"), lit(&u)]), &[format!("x{}", u), format!("{}{}", c, u), format!("x%{{{}", d), format!("x{}", escape(&u))], l)
    }));
    // long texts with the escape at every position
    let lens: Vec<usize> = if quick { vec![1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 100, 128, 255, 256] } else { (1..300).collect() };
    f.push(chunked("long", format!("texts of {} lengths with %{{ at every position", lens.len()), 1, lens, |&n, l| {
        for at in 0..n + 1 {
            let t = format!("{}%{{{}", "x".repeat(at), "y".repeat(n - at));
            let msgs = vec![t.clone(), escape(&t), t.replace("%{", "{"), t.replace("%{", "%"), format!("{}z", t), format!("1{}", t), format!("1{}1", t)];
            check_literal(&vec![lit(&t)], &msgs, l)?;
            check_literal(&link_greedy(vec![model::greedy("g"), lit(&t)]), &msgs, l)?;
            check_literal(&vec![model::int("a"), lit(&t), model::int("b")], &msgs, l)?;
        }
        Ok(())
    }));
    f
}

fn build(p: &str, tier: Tier) -> Option<Check> {
    let (families, rule) = match p {
        "C08" => (spaces(Which::Good, tier), "two executions differ when the sequence of token kinds differs; only texts of the grammar are states"),
        "C09" => (spaces(Which::Bad, tier), "two executions differ when the distance of the error from the item, its line or the distance to the first invalid character differ; only texts outside the grammar are states"),
        "C10" => (c10(tier), "two executions differ when the match or the lengths of the values differ"),
        _ => return None,
    };
    Some(Check {
        property: p.to_owned(),
        families,
        rule: rule.to_owned(),
        assumptions: vec!["the pattern language is the one of src/grammar/parser/pattern.rustpeg".to_owned()],
    })
}

fn main() {
    engine::main(build)
}
