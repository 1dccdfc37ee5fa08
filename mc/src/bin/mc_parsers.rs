//! C06 (SET, INT), C07 (GREEDY), C18 (parser identity).
use actiondb::grammar;
use actiondb::matcher::compiled_pattern::TokenType;
use actiondb::matcher::trie::parser_factory::TrieParserFactory;
use actiondb::matcher::{Matcher, Pattern};
use actiondb::parsers::{GreedyParser, HasLengthConstraint, IntParser, ObjectSafeHash, OptionalParameter, Parser, ParserFactory, SetParser};
use mc::engine::{self, guard, violation, Check, Family, Local, Outcome, Tier};
use mc::model::{self, greedy, int, link_greedy, lit, set, Tok, Tokens};
use mc::real::{self, ask, new_matcher, KINDS};
use mc::strings::{all_strings, ladder};
use std::collections::{BTreeSet, HashMap};

/// Ways to construct the same SET or INT parser.
const PATHS: usize = 5;

fn params(min: Option<usize>, max: Option<usize>, swap: bool) -> Option<Vec<OptionalParameter<'static>>> {
    let mut v = vec![];
    if let Some(m) = min {
        v.push(OptionalParameter::Int("min_len", m));
    }
    if let Some(m) = max {
        v.push(OptionalParameter::Int("max_len", m));
    }
    if swap {
        v.reverse();
    }
    if v.is_empty() && !swap { None } else { Some(v) }
}

fn construct(tok: &Tok, path: usize) -> Box<dyn Parser> {
    match *tok {
        Tok::Lit(_) => unreachable!(),
        Tok::Set { ref set, ref name, min, max } => match path {
            0 => {
                let mut p = SetParser::new(set);
                p.set_name(name.clone());
                p.set_min_length(min);
                p.set_max_length(max);
                Box::new(p)
            }
            1 => {
                // other order, other initial contents
                let mut p = SetParser::with_name("other".to_owned(), "zzz");
                p.set_max_length(Some(99));
                p.set_max_length(max);
                p.set_min_length(Some(99));
                p.set_min_length(min);
                p.set_name(name.clone());
                p.set_character_set(set);
                Box::new(p)
            }
            2 => TrieParserFactory::new_set(set, name.as_ref().map(|s| &s[..]), params(min, max, false)),
            3 => TrieParserFactory::new_set(set, name.as_ref().map(|s| &s[..]), params(min, max, true)),
            _ => {
                let mut p = match *name { Some(ref n) => SetParser::from_str(n, set), None => SetParser::new(set) };
                p.set_max_length(max);
                p.set_min_length(min);
                p.boxed_clone()
            }
        },
        Tok::Int { ref name, min, max } => match path {
            0 => {
                let mut p = IntParser::new();
                p.set_name(name.clone());
                p.set_min_length(min);
                p.set_max_length(max);
                Box::new(p)
            }
            1 => {
                let mut p = IntParser::with_name("other");
                p.set_max_length(Some(99));
                p.set_max_length(max);
                p.set_min_length(Some(99));
                p.set_min_length(min);
                p.set_name(name.clone());
                Box::new(p)
            }
            2 => TrieParserFactory::new_int(name.as_ref().map(|s| &s[..]), params(min, max, false)),
            3 => TrieParserFactory::new_int(name.as_ref().map(|s| &s[..]), params(min, max, true)),
            _ => {
                let mut p = match *name { Some(ref n) => IntParser::with_name(n.clone()), None => IntParser::default() };
                p.set_max_length(max);
                p.set_min_length(min);
                p.boxed_clone()
            }
        },
        Tok::Greedy { ref name, ref end } => match path {
            0 => {
                let mut p = GreedyParser::new();
                p.set_name(name.clone());
                p.set_end_string(end.clone());
                Box::new(p)
            }
            1 => {
                let mut p = GreedyParser::from_str("other", "zzz");
                p.set_end_string(end.clone());
                p.set_name(name.clone());
                Box::new(p)
            }
            2 | 3 => TrieParserFactory::new_greedy(name.as_ref().map(|s| &s[..]), end.as_ref().map(|s| &s[..])),
            _ => match (name, end) {
                (&Some(ref n), &Some(ref e)) => GreedyParser::from_str(n, e).boxed_clone(),
                (&Some(ref n), &None) => GreedyParser::with_name(n.clone()).boxed_clone(),
                (&None, _) => {
                    let mut p = GreedyParser::default();
                    p.set_end_string(end.clone());
                    p.boxed_clone()
                }
            },
        },
    }
}

/// Asks a parser and compares with the model.
fn probe(p: &dyn Parser, tok: &Tok, text: &str, l: &mut Local) -> Outcome {
    let shown = || if text.len() > 200 { format!("{} bytes starting {:?}", text.len(), text.chars().take(30).collect::<String>()) } else { format!("{:?}", text) };
    let script = || format!("parser {:?}\nparse({})\n", tok, shown());
    let exp = tok.consume(text);
    let got = guard(|| p.parse(text).map(|r| (r.value().as_ptr() as usize, r.value().len(), r.value() == &text[..r.value().len().min(text.len())], r.parser().name().map(|s| s.to_owned()))));
    l.transitions += 1;
    l.traces += 1;
    match got {
        Err(e) => violation(format!("the parser panics: {}", e), script()),
        Ok(None) => if let Some(n) = exp { violation(format!("the parser rejects the text, it must consume {} bytes", n), script()) } else { Ok(()) },
        Ok(Some((ptr, len, same, name))) => {
            if exp != Some(len) || !same {
                return violation(format!("the parser consumes {} bytes, it must {}", len, exp.map_or("reject the text".to_owned(), |n| format!("consume {}", n))), script());
            }
            if len > 0 && ptr != text.as_ptr() as usize {
                return violation("the reported value is not the beginning of the text".to_owned(), script());
            }
            if name.as_ref().map(|s| &s[..]) != tok.name() {
                return violation(format!("the result carries the name {:?}", name), script());
            }
            Ok(())
        }
    }
}

fn limits(max: usize) -> Vec<Option<usize>> {
    let mut v = vec![None];
    v.extend((0..=max).map(Some));
    v
}

// ---------------------------------------------------------------- C06

fn small(texts: Vec<String>, chars: &'static [char], max_limit: usize) -> Family {
    let mut toks: Vec<Tok> = vec![];
    for min in limits(max_limit) {
        for max in limits(max_limit) {
            toks.push(Tok::Int { name: Some("i".to_owned()), min, max });
            for mask in 0u32..(1 << chars.len()) {
                let s: String = (0..chars.len()).filter(|i| mask & (1 << i) != 0).map(|i| chars[i]).collect();
                toks.push(Tok::Set { set: s, name: Some("s".to_owned()), min, max });
            }
        }
    }
    let bound = format!("all {} configurations (INT; SET over every subset of {:?}; limits absent or 0..={}) x {} construction paths x all {} texts", toks.len(), chars, max_limit, PATHS, texts.len());
    Family::new("small", bound, toks.len() as u64, move |item, l| {
        let tok = &toks[item as usize];
        for path in 0..PATHS {
            let p = match guard(|| construct(tok, path)) {
                Ok(p) => p,
                Err(e) => return violation(format!("constructing the parser panics: {}", e), format!("{:?} path {}", tok, path)),
            };
            l.states += 1;
            for t in &texts {
                probe(&*p, tok, t, l)?;
                l.outcome(&(tok.consume(t), t.len()));
            }
        }
        Ok(())
    })
}

/// Configurations written in pattern text, in both argument orders and with blanks.
fn written() -> Family {
    let mut cases: Vec<(String, Tok)> = vec![];
    let nums = [None, Some(0usize), Some(1), Some(2), Some(3), Some(10), Some(18446744073709551615)];
    for &min in &nums {
        for &max in &nums {
            for name in ["", "n"] {
                for set_chars in [None, Some("ab"), Some("a-c"), Some("é1"), Some("1)}:")] {
                    for swap in [false, true] {
                        for sep in [",", ", "] {
                            let mut args: Vec<String> = vec![];
                            if let Some(m) = min { args.push(format!("min_len={}", m)); }
                            if let Some(m) = max { args.push(format!("max_len={}", m)); }
                            if swap { args.reverse(); }
                            if let Some(s) = set_chars { args.insert(0, format!("\"{}\"", s)); }
                            let nm = if name.is_empty() { String::new() } else { format!(":{}", name) };
                            let a = if args.is_empty() { String::new() } else { format!("({})", args.join(sep)) };
                            let src = format!("%{{{}{}{}}}", if set_chars.is_some() { "SET" } else { "INT" }, a, nm);
                            let name = if name.is_empty() { None } else { Some(name.to_owned()) };
                            let tok = match set_chars {
                                Some(s) => Tok::Set { set: s.to_owned(), name, min, max },
                                None => Tok::Int { name, min, max },
                            };
                            cases.push((src, tok));
                        }
                    }
                }
            }
        }
    }
    let texts: Vec<String> = all_strings(&['a', 'b', '-', '1', 'é', ')'], 3).into_iter().chain((0..24).flat_map(|n| vec!["1".repeat(n), "é1".repeat(n), "ab".repeat(n)])).collect();
    let bound = format!("{} written SET and INT items (limits absent, 0..3, 10, the largest number; both orders; with and without blank and name) x {} texts", cases.len(), texts.len());
    Family::new("written", bound, cases.len() as u64, move |item, l| {
        let (ref src, ref tok) = cases[item as usize];
        let cp = match guard(|| grammar::parser::pattern(src)) {
            Ok(Ok(cp)) => cp,
            // whether a text compiles is another property's business
            _ => return Ok(()),
        };
        l.states += 1;
        if cp.len() == 1 {
            if let TokenType::Parser(ref p) = cp[0] {
                for t in &texts {
                    probe(&**p, tok, t, l).map_err(|mut v| { v.script = format!("pattern {}\n{}", src, v.script); v })?;
                    l.outcome(&(tok.consume(t), t.len()));
                }
            }
        }
        Ok(())
    })
}

/// Limits far from any text, where narrow integers would wrap.
fn big_limits() -> Family {
    let mut nums: Vec<Option<usize>> = vec![None, Some(usize::max_value()), Some(usize::max_value() - 1)];
    for k in 0..64 {
        let p = 1usize << k;
        nums.extend([Some(p - 1), Some(p), Some(p + 1), Some(p.wrapping_mul(3))]);
    }
    nums.sort();
    nums.dedup();
    let texts: Vec<String> = (0..12).flat_map(|n| vec!["1".repeat(n), "é1".repeat(n)]).chain([255usize, 256, 257, 300, 65535, 65536, 65540].iter().map(|&n| "1".repeat(n))).collect();
    let n = nums.len() as u64;
    Family::new("big-limits", format!("all pairs of {} limits around every power of two up to the largest number (INT and SET, given by call and in pattern text) x {} run lengths", nums.len(), texts.len()), n, move |item, l| {
        let min = nums[item as usize];
        for &max in &nums {
            for kind in 0..2 {
                let tok = if kind == 0 { Tok::Int { name: None, min, max } } else { Tok::Set { set: "é1".to_owned(), name: None, min, max } };
                let src = tok.source();
                let mut parsers: Vec<Box<dyn Parser>> = vec![construct(&tok, 0)];
                // whether a text compiles is another property's business
                if let Ok(Ok(mut cp)) = guard(|| grammar::parser::pattern(&src)) {
                    if cp.len() == 1 {
                        if let Some(TokenType::Parser(p)) = cp.pop() {
                            parsers.push(p);
                        }
                    }
                }
                for p in &parsers {
                    l.states += 1;
                    for (i, t) in texts.iter().enumerate() {
                        // the long texts only where a limit is near a power of 2^8 or 2^16
                        if i >= 24 && !(min.map_or(true, |m| m < 70000) && max.map_or(true, |m| m & 0xff < 4 || m & 0xff > 0xfb)) || i >= 24 && item % 4 != 0 {
                            continue;
                        }
                        probe(&**p, &tok, t, l)?;
                        l.outcome(&(tok.consume(t), t.len()));
                    }
                }
            }
        }
        Ok(())
    })
}

/// Every Unicode scalar value against INT and several sets.
fn scalars() -> Family {
    let all: Vec<char> = (0..0x110000u32).filter_map(std::char::from_u32).collect();
    let chunk = 2048usize;
    let items = ((all.len() + chunk - 1) / chunk) as u64;
    let sets: Vec<Tok> = vec![int("i"), set("0123456789", "d"), set("abcxyz", "s"), set("a-z", "r"), set("éèçÀ", "e"), set("\u{c3}\u{a9}", "latin"), set(".*[^x]", "re"), set("€₭", "c"), set("😀\u{10ffff}", "q"), set(" \t\n", "w")];
    Family::new("scalars", format!("every Unicode scalar value alone, doubled and between members against INT and {} sets; every scalar value as a one-character set against itself and its neighbours in value and in the last byte", sets.len() - 1), items, move |item, l| {
        let parsers: Vec<Box<dyn Parser>> = sets.iter().map(|t| construct(t, 0)).collect();
        let lo = item as usize * chunk;
        let hi = (lo + chunk).min(all.len());
        let firsts: Vec<char> = sets.iter().map(|t| match *t { Tok::Set { ref set, .. } => set.chars().next().unwrap(), _ => '5' }).collect();
        for i in lo..hi {
            let c = all[i];
            let one = c.to_string();
            let two = format!("{}{}", c, c);
            for (k, t) in sets.iter().enumerate() {
                probe(&*parsers[k], t, &one, l)?;
                probe(&*parsers[k], t, &two, l)?;
                let mixed = format!("{}{}{}", firsts[k], c, firsts[k]);
                probe(&*parsers[k], t, &mixed, l)?;
            }
            let own = set(&one, "own");
            let p = construct(&own, 0);
            l.states += 1;
            probe(&*p, &own, &two, l)?;
            for j in [i.wrapping_sub(1), i + 1, i + 0x40, i.wrapping_sub(0x40), i + 0x20, i.wrapping_sub(0x20)] {
                if let Some(d) = all.get(j) {
                    probe(&*p, &own, &format!("{}{}{}", c, d, c), l)?;
                }
            }
            l.outcome(&(sets.iter().map(|t| t.consume(&two).is_some()).collect::<Vec<_>>(), one.len()));
        }
        Ok(())
    })
}

/// Run lengths against limits around the length.
fn runs(lens: Vec<usize>) -> Family {
    let units = [("1", "0123456789"), ("é", "é"), ("€", "€1"), ("😀", "😀"), ("ab", "ab")];
    let bound = format!("runs of {} lengths up to {} x 5 kinds of characters x (run ends the text, is followed by a foreign character) x limits at, one below and one above the length", lens.len(), lens[lens.len() - 1]);
    Family::new("runs", bound, lens.len() as u64, move |item, l| {
        let n = lens[item as usize];
        for (k, &(unit, chars)) in units.iter().enumerate() {
            let run: String = unit.chars().cycle().take(n).collect();
            let around = |x: usize| -> Vec<Option<usize>> { let mut v = vec![None, Some(x), Some(x + 1)]; if x > 0 { v.push(Some(x - 1)); } v };
            for min in around(n) {
                for max in around(n) {
                    for kind in 0..2 {
                        let tok = if kind == 0 { Tok::Set { set: chars.to_owned(), name: None, min, max } } else if k == 0 { Tok::Int { name: None, min, max } } else { continue };
                        let p = construct(&tok, 0);
                        l.states += 1;
                        for tail in ["", "x", "è", "₭1"] {
                            let text = format!("{}{}", run, tail);
                            probe(&*p, &tok, &text, l)?;
                            l.outcome(&(tok.consume(&text).is_some(), n, k));
                        }
                    }
                }
            }
        }
        Ok(())
    })
}

/// Sets of neighbouring characters with holes: each tested on the holes, the edges and the members.
fn holes(max: usize) -> Family {
    let starts = ['!', '0', 'a', '\u{7a}', '\u{b5}', '\u{7f0}', '\u{ffe0}', '\u{1f5f0}'];
    let bound = format!("intervals of 1 to {} characters from {} starts, complete, with every one hole and with every two holes (three: in steps), each given in ascending and descending order; every character from two before to two behind, alone and between members", max, starts.len());
    Family::new("holes", bound, (max * starts.len()) as u64, move |item, l| {
        let n = item as usize % max + 1;
        let start = starts[item as usize / max] as u32;
        let at = |i: i64| std::char::from_u32((start as i64 + i) as u32);
        let members: Vec<char> = (0..n as i64).filter_map(&at).filter(|c| *c != '"').collect();
        let around: Vec<char> = (-2..n as i64 + 2).filter_map(&at).collect();
        let mut gone: Vec<Vec<usize>> = vec![vec![]];
        for i in 0..members.len() {
            gone.push(vec![i]);
            for j in i + 1..members.len() {
                gone.push(vec![i, j]);
                if (i + j) % 5 == 0 && j + 2 < members.len() {
                    gone.push(vec![i, j, j + 2]);
                }
            }
        }
        for g in &gone {
            let set: String = members.iter().enumerate().filter(|x| !g.contains(&x.0)).map(|x| *x.1).collect();
            if set.is_empty() {
                continue;
            }
            let first = set.chars().next().unwrap();
            for text in [set.clone(), set.chars().rev().collect()] {
                let tok = Tok::Set { set: text, name: None, min: None, max: None };
                let p = construct(&tok, 0);
                l.states += 1;
                for c in &around {
                    probe(&*p, &tok, &c.to_string(), l)?;
                    probe(&*p, &tok, &format!("{}{}{}", first, c, first), l)?;
                }
                l.outcome(&(n, g.len()));
            }
        }
        Ok(())
    })
}

/// Every sequence of configuration calls: the last setting of each kind counts, and asking does not change anything.
fn reconfigure(depth: usize) -> Family {
    let texts = all_strings(&['a', 'b', '1'], 4);
    let n = 15u64;
    Family::new("reconfigure", format!("all sequences of {} configuration and parse calls out of {} on SET and INT parsers, then all {} texts twice", depth, n, texts.len()), n.pow(depth as u32 - 1), move |item, l| {
        for last in 0..n {
            let mut ops = vec![];
            let mut x = item;
            for _ in 0..depth - 1 {
                ops.push(x % n);
                x /= n;
            }
            ops.push(last);
            for is_int in [false, true] {
                let mut chars = "ab".to_owned();
                let mut name: Option<String> = Some("s".to_owned());
                let (mut min, mut max) = (None, None);
                let mut sp = SetParser::from_str("s", "ab");
                let mut ip = IntParser::with_name("s");
                for &op in &ops {
                    match op {
                        0 => { min = None; sp.set_min_length(None); ip.set_min_length(None); }
                        1..=3 => { min = Some(op as usize); sp.set_min_length(min); ip.set_min_length(min); }
                        4 => { max = None; sp.set_max_length(None); ip.set_max_length(None); }
                        5..=7 => { max = Some(op as usize - 4); sp.set_max_length(max); ip.set_max_length(max); }
                        8 => { chars = "a".to_owned(); sp.set_character_set("a"); }
                        9 => { chars = "b1".to_owned(); sp.set_character_set("b1"); }
                        10 => { name = None; sp.set_name(None); ip.set_name(None); }
                        11 => { name = Some("t".to_owned()); sp.set_name(name.clone()); ip.set_name(name.clone()); }
                        13 => { chars = String::new(); sp.set_character_set(""); }
                        12 => { let _ = sp.parse("aab"); let _ = ip.parse("11a"); }
                        _ => { sp = sp.clone(); ip = ip.clone(); }
                    }
                }
                let tok = if is_int { Tok::Int { name, min, max } } else { Tok::Set { set: chars, name, min, max } };
                let p: &dyn Parser = if is_int { &ip } else { &sp };
                let lens = if is_int { (ip.min_length(), ip.max_length()) } else { (sp.min_length(), sp.max_length()) };
                if lens != (min, max) {
                    return violation(format!("the limits read back as {:?}, they were set to {:?}", lens, (min, max)), format!("{:?} ops {:?}", tok, ops));
                }
                l.states += 1;
                l.outcome(&tok);
                for t in texts.iter().chain(texts.iter().rev()) {
                    probe(p, &tok, t, l).map_err(|mut v| { v.script = format!("configuration calls {:?}\n{}", ops, v.script); v })?;
                }
            }
        }
        Ok(())
    })
}

/// One buffer that is written anew before every call: all ordered pairs of texts of one length with one parser,
/// all ordered pairs of parsers with one text.
fn buffers<F: Fn(usize) -> (Vec<Tok>, Vec<String>) + Sync + Send + 'static>(what: &str, lens: Vec<usize>, cases: F) -> Family {
    let bound = format!("one buffer rewritten in place: {} lengths up to {}; all ordered pairs of texts with each parser, all ordered pairs of parsers with each text; {}", lens.len(), lens[lens.len() - 1], what);
    Family::new("buffers", bound, lens.len() as u64, move |item, l| {
        let len = lens[item as usize];
        let (toks, mut texts) = cases(len);
        texts.sort();
        texts.dedup();
        let parsers: Vec<Box<dyn Parser>> = toks.iter().map(|t| construct(t, 0)).collect();
        let mut buffer = String::with_capacity(len * 4 + 16);
        let two = |p: usize, q: usize, a: &str, b: &str, buffer: &mut String, l: &mut Local| -> Outcome {
            for (i, t) in [(p, a), (q, b)].iter() {
                buffer.clear();
                buffer.push_str(t);
                probe(&*parsers[*i], &toks[*i], buffer, l).map_err(|mut v| {
                    v.script = format!("{}the texts stand in one buffer that is written anew:\nparser {:?}, parse({:?})\nparser {:?}, parse({:?})\n", v.script, toks[p], a, toks[q], b);
                    v
                })?;
            }
            Ok(())
        };
        for a in &texts {
            for b in &texts {
                for p in 0..parsers.len() {
                    two(p, p, a, b, &mut buffer, l)?;
                }
            }
            for p in 0..parsers.len() {
                for q in 0..parsers.len() {
                    two(p, q, a, a, &mut buffer, l)?;
                }
            }
        }
        l.states += texts.len() as u64;
        l.outcome(&len);
        Ok(())
    })
}

fn run_buffers(quick: bool) -> Family {
    let lens = if quick { (1..=40).chain([63, 64, 65, 100, 127, 128, 129]).collect() } else { (1..=140).chain([255, 256, 257]).collect() };
    buffers("runs of members of every length up to the end, runs with one foreign character at every place, for INT, SET with and without limits", lens, |len| {
        let toks = vec![set("a1", "s"), set("a1", "t"), set("a1\u{e9}", "s"), int("s"),
                        Tok::Set { set: "a1".to_owned(), name: None, min: Some(len / 2), max: None }, Tok::Set { set: "a1".to_owned(), name: None, min: None, max: Some(len / 2) },
                        Tok::Int { name: None, min: Some(len / 2), max: Some(len - 1) }];
        let mut texts = vec![];
        for i in 0..=len {
            texts.push(format!("{}{}", "1".repeat(i), "!".repeat(len - i)));
            texts.push(format!("{}{}", "1".repeat(i), "a".repeat(len - i)));
            if i < len {
                texts.push(format!("{}!{}", "1".repeat(i), "1".repeat(len - i - 1)));
            }
        }
        (toks, texts)
    })
}

fn end_buffers(quick: bool) -> Family {
    let lens = if quick { (1..=140).chain([255, 256, 257]).collect() } else { (1..=300).chain([511, 512, 513]).collect() };
    buffers("end strings at up to two of a grid of places, for six GREEDY parsers", lens, |len| {
        let ends = ["!", "!!", "!?", "?!", "x!"];
        let mut toks: Vec<Tok> = ends.iter().map(|e| Tok::Greedy { name: Some("g".to_owned()), end: Some(e.to_string()) }).collect();
        toks.push(greedy("g"));
        let mut grid: Vec<usize> = vec![0, 1, len / 4, len / 2, len * 3 / 4, len.saturating_sub(3), len.saturating_sub(2), len - 1, 31, 32, 33, 40];
        grid.retain(|&g| g < len);
        grid.sort();
        grid.dedup();
        let mut texts = vec![];
        for mark in ["!", "!!", "?!", "!?"].iter() {
            for &a in &grid {
                for &b in &grid {
                    let mut t = vec![b'x'; len];
                    for &at in &[a, b] {
                        for (i, c) in mark.bytes().enumerate() {
                            if at + i < len {
                                t[at + i] = c;
                            }
                        }
                    }
                    texts.push(String::from_utf8(t).unwrap());
                }
            }
        }
        if len > 60 {
            // the whole square of texts is large; two kinds of marks then
            texts.truncate(grid.len() * grid.len() * 2);
        }
        texts.push("x".repeat(len));
        (toks, texts)
    })
}

fn lens(quick: bool) -> Vec<usize> {
    if quick { (0..=130).chain([200, 254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4096, 65534, 65535, 65536, 65537]).collect() }
    else { (0..=2050).chain([4095, 4096, 4097, 65534, 65535, 65536, 65537, 131071, 131072]).collect() }
}

/// What was parsed before in the same thread, however often, does not matter.
fn long_use(what: &str, before: Vec<(Tok, String)>, toks: Vec<Tok>, texts: Vec<String>, counts: Vec<usize>) -> Family {
    let bound = format!("{} parsers used {:?} times in one thread, each with its text, the same one again and again or a new one each time; in between and afterwards {} configurations ({}) x all {} texts", before.len(), counts, toks.len(), what, texts.len());
    Family::new("long-use", bound, 2 * before.len() as u64, move |item, l| {
        let (tok, text) = &before[item as usize / 2];
        let fresh = item % 2 == 1;
        let old: Vec<_> = toks.iter().map(|t| construct(t, 0)).collect();
        let used = construct(tok, 0);
        let mut done = 0;
        for &n in &counts {
            while done < n {
                let r = if fresh { probe(&*construct(tok, 0), tok, text, l) } else { probe(&*used, tok, text, l) };
                r.map_err(|mut v| { v.script = format!("call number {}\n{}", done + 1, v.script); v })?;
                done += 1;
            }
            l.states += 1;
            l.outcome(&(item, n));
            for (t, o) in toks.iter().zip(&old) {
                for x in &texts {
                    let new = construct(t, 0);
                    probe(&*new, t, x, l).and_then(|_| probe(&**o, t, x, l)).map_err(|mut v| { v.script = format!("after {} calls of {:?} with {:?}\n{}", done, tok, text.chars().take(60).collect::<String>(), v.script); v })?;
                }
            }
        }
        Ok(())
    })
}

fn c06(tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    const CH: [char; 4] = ['a', 'b', 'é', '1'];
    vec![
        small(all_strings(&['a', 'b', 'é', 'è', '1'], if quick { 4 } else { 5 }), &CH, if quick { 3 } else { 5 }),
        written(),
        scalars(),
        runs(lens(quick)),
        reconfigure(if quick { 3 } else { 4 }),
        big_limits(),
        holes(if quick { 28 } else { 70 }),
        run_buffers(quick),
        {
            let st = |s: &str, min, max| Tok::Set { set: s.to_owned(), name: Some("s".to_owned()), min, max };
            let it = |min, max| Tok::Int { name: Some("s".to_owned()), min, max };
            let before = vec![(st("a", None, None), "a".repeat(40)), (it(None, None), "1".repeat(40)), (it(None, None), "7x".to_owned()), (st("a", None, None), "b".to_owned()), (st("é", None, None), "é".repeat(70)), (st("ab", None, Some(1)), "abab".to_owned()), (it(Some(3), None), "12".to_owned()), (it(None, None), String::new()), (st("abcdefghijklmnopqrstuvwxyz", Some(1), Some(300)), "zyx".repeat(90)), (st("a", None, None), "a".repeat(300))];
            let toks = vec![st("a", None, None), st("ab", None, None), st("ac", None, None), st("abd", Some(2), None), st("a c", None, Some(2)), st("é", None, None), st("éa", Some(1), Some(1)), st("02", None, None), st("0123456789", None, None), it(None, None), it(Some(2), None), it(None, Some(2)), st("", None, None)];
            long_use("SET and INT", before, toks, all_strings(&['a', 'b', 'c', '1', 'é'], 3).into_iter().chain(["a".repeat(50), "12".repeat(50), "aébc".repeat(20), "ab".repeat(33) + "c"].iter().cloned()).collect(), if quick { vec![1, 2, 10, 33, 65, 129, 257, 300, 1025, 4097, 10_001, 65_540] } else { vec![1, 2, 3, 10, 33, 65, 129, 257, 300, 1025, 4097, 10_001, 65_540, 131_080, 1_050_000] })
        },
    ]
}

// ---------------------------------------------------------------- C07

fn greedy_small(ends: Vec<String>, texts: Vec<String>) -> Family {
    let mut toks: Vec<Tok> = vec![greedy("g"), greedy("")];
    for e in ends {
        toks.push(Tok::Greedy { name: Some("g".to_owned()), end: Some(e) });
    }
    let bound = format!("{} configurations (no end string, every end string of the bound) x {} construction paths x all {} texts", toks.len(), PATHS, texts.len());
    Family::new("small", bound, toks.len() as u64, move |item, l| {
        let tok = &toks[item as usize];
        for path in 0..PATHS {
            let p = construct(tok, path);
            l.states += 1;
            for t in &texts {
                probe(&*p, tok, t, l)?;
                l.outcome(&(tok.consume(t), t.len()));
            }
        }
        Ok(())
    })
}

fn greedy_positions(lens: Vec<usize>) -> Family {
    let ends = ["!", "ab", "aab", "abab", "é", "€!", "\n", " : ", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab"];
    let fills = ["a", "ab", "é", "è", " ", "x\n", "€"];
    let bound = format!("texts in which the first end string starts after {} different fill lengths up to {} (x 7 fills, x 9 end strings, also cut inside the end string, repeated, absent)", lens.len(), lens[lens.len() - 1]);
    Family::new("positions", bound, lens.len() as u64, move |item, l| {
        let n = lens[item as usize];
        for e in &ends {
            let tok = Tok::Greedy { name: None, end: Some(e.to_string()) };
            let none = greedy("rest");
            let p = construct(&tok, 0);
            let q = construct(&none, 0);
            l.states += 1;
            for fill in &fills {
                let f: String = fill.chars().cycle().take(n).collect();
                let mut cut = e.to_string();
                cut.pop();
                for t in [format!("{}{}", f, e), format!("{}{}{}tail", f, e, e), f.clone(), format!("{}{}", f, cut), format!("{}{}{}", f, cut, e)] {
                    probe(&*p, &tok, &t, l)?;
                    probe(&*q, &none, &t, l)?;
                    l.outcome(&(tok.consume(&t).is_some(), n, *e));
                }
            }
        }
        Ok(())
    })
}

/// End strings of every length, and texts in which parts of them occur before they do.
fn greedy_lengths(ns: Vec<usize>) -> Family {
    let bound = format!("end strings of {} lengths up to {} (one character repeated, periodic, all different, multi-byte), in texts in which their beginnings (all but the last character, half, the first, powers of two) and their ends occur before", ns.len(), ns[ns.len() - 1]);
    Family::new("end-lengths", bound, ns.len() as u64, move |item, l| {
        let n = ns[item as usize];
        let kinds: Vec<String> = vec!["a".repeat(n), "ab".chars().cycle().take(n).collect(), "aab".chars().cycle().take(n).collect(), "\u{e9}".repeat(n), "a\u{20ac}".chars().cycle().take(n).collect(),
                                      (0..n).map(|i| std::char::from_u32(0x4e00 + (i % 20000) as u32).unwrap()).collect(), format!("{}!", "x".repeat(n - 1)), format!("!{}", "x".repeat(n - 1))];
        for e in &kinds {
            let chars: Vec<char> = e.chars().collect();
            let tok = Tok::Greedy { name: Some("g".to_owned()), end: Some(e.clone()) };
            let p = construct(&tok, 0);
            l.states += 1;
            let mut parts: Vec<usize> = vec![n - 1, n.saturating_sub(2), n / 2, 1];
            let mut k = 4;
            while k < n {
                parts.push(k);
                k *= 2;
            }
            let mut texts = vec![e.clone(), format!("z{}", e), format!("{}z", e), format!("z{}{}", e, e)];
            for k in parts {
                let head: String = chars[..k].iter().collect();
                let tail: String = chars[n - k..].iter().collect();
                for part in [head, tail] {
                    texts.push(format!("{}z{}", part, e));
                    texts.push(format!("{}{}", part, e));
                    texts.push(format!("z{}z{}z", part, e));
                    texts.push(part);
                }
            }
            // one character changed
            for at in [0, n / 2, n - 1] {
                let mut c = chars.clone();
                c[at] = '~';
                let c: String = c.into_iter().collect();
                texts.push(format!("{}{}", c, e));
                texts.push(c);
            }
            for t in &texts {
                probe(&*p, &tok, t, l)?;
                l.outcome(&(n, tok.consume(t).is_some()));
            }
        }
        Ok(())
    })
}

/// GREEDY items inside pattern texts: their end string is the literal that follows.
fn greedy_in_patterns(quick: bool) -> Family {
    let pieces: Vec<Tok> = vec![lit("a"), lit("b a"), lit("é"), lit(":"), lit("{x"), lit("%"), lit("%{"), lit("x%{y"), int("i"), set("ab", "s"), greedy("g"), greedy("")];
    let mut pats: Vec<Tokens> = vec![];
    let mut level: Vec<Tokens> = vec![vec![]];
    for _ in 0..if quick { 5 } else { 6 } {
        let mut next = vec![];
        for p in &level {
            for t in &pieces {
                if t.is_lit() && p.last().map_or(false, |x| x.is_lit()) {
                    continue;
                }
                let mut q = p.clone();
                q.push(t.clone());
                next.push(q);
            }
        }
        pats.extend(next.iter().filter(|p| p.iter().any(|t| matches!(*t, Tok::Greedy { .. }))).cloned());
        level = next;
    }
    let texts: Vec<String> = all_strings(&['a', 'b', ' ', 'é', ':'], 2).into_iter().chain(["xa", "b aa", "ab a", "x:y:z", "é:a", "12ab", "a%b", "{xa{x", "%{x"].iter().map(|s| s.to_string())).collect();
    let bound = format!("all {} pattern texts of up to {} items that contain GREEDY (literals, INT, SET, GREEDY named and unnamed): each GREEDY of the compiled pattern on {} texts", pats.len(), if quick { 5 } else { 6 }, texts.len());
    let chunk = 64u64;
    let items = (pats.len() as u64 + chunk - 1) / chunk;
    Family::new("in-patterns", bound, items, move |item, l| {
        let lo = (item * chunk) as usize;
        for p in pats[lo..(lo + chunk as usize).min(pats.len())].iter() {
            let linked = link_greedy(p.clone());
            let src = model::source(&linked);
            let cp = match guard(|| grammar::parser::pattern(&src)) {
                Ok(Ok(cp)) => cp,
                _ => continue,
            };
            // count the GREEDY items from the left: the n-th one of the text is the n-th one compiled
            l.states += 1;
            if cp.len() != linked.len() {
                continue;
            }
            for (t, c) in linked.iter().zip(cp.iter()) {
                if let (&Tok::Greedy { .. }, &TokenType::Parser(ref pr)) = (t, c) {
                    for x in &texts {
                        probe(&**pr, t, x, l).map_err(|mut v| { v.script = format!("pattern {}\n{}", src, v.script); v })?;
                        l.outcome(&(t.consume(x), t.name().is_some()));
                    }
                }
            }
        }
        Ok(())
    })
}

fn greedy_scalars() -> Family {
    let all: Vec<char> = (0..0x110000u32).filter_map(std::char::from_u32).collect();
    let chunk = 4096usize;
    let items = ((all.len() + chunk - 1) / chunk) as u64;
    Family::new("scalars", "every Unicode scalar value as end string, before and after its neighbours".to_owned(), items, move |item, l| {
        let lo = item as usize * chunk;
        for i in lo..(lo + chunk).min(all.len()) {
            let c = all[i];
            let tok = Tok::Greedy { name: None, end: Some(c.to_string()) };
            let p = construct(&tok, 0);
            l.states += 1;
            let d = all[(i + 1) % all.len()];
            let e = all[(i + 0x40) % all.len()];
            for t in [format!("{}{}{}{}", d, e, c, c), format!("{}{}", d, e), format!("{}", c), format!("x{}y", c)] {
                probe(&*p, &tok, &t, l)?;
                l.outcome(&tok.consume(&t));
            }
        }
        Ok(())
    })
}

fn c07(tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let mut f = vec![
        greedy_small(all_strings(&['a', 'b'], if quick { 4 } else { 5 }), all_strings(&['a', 'b'], if quick { 8 } else { 10 })),
        greedy_small(all_strings(&['a', 'é', 'è', '€'], 2), all_strings(&['a', 'é', 'è', '€'], if quick { 5 } else { 6 })),
        greedy_small(all_strings(&['\n', ' ', '\r', '\u{0}', 'A', 'a'], 2), all_strings(&['\n', ' ', '\r', '\u{0}', 'A', 'a'], 4)),
        greedy_positions(lens(quick)),
        greedy_in_patterns(quick),
        greedy_scalars(),
        end_buffers(quick),
        {
            let g = |e: Option<&str>| Tok::Greedy { name: Some("g".to_owned()), end: e.map(|e| e.to_owned()) };
            let before = vec![(g(Some("x")), format!("{}x", "a".repeat(60))), (g(Some("x")), "aaa".to_owned()), (g(None), "abc".to_owned()), (g(None), String::new()), (g(Some("é")), "èé".to_owned()), (g(Some("ab")), "aab".to_owned()), (g(Some("ab")), format!("{}ab", "b".repeat(5000)))];
            let toks = vec![g(None), g(Some("a")), g(Some("ab")), g(Some("aab")), g(Some("é")), g(Some("bé")), g(Some("aa")), g(Some("b"))];
            long_use("GREEDY", before, toks, all_strings(&['a', 'b', 'é'], 4).into_iter().chain(["a".repeat(50) + "b", "aébc".repeat(20), "b".repeat(70)].iter().cloned()).collect(), if quick { vec![1, 2, 10, 33, 65, 129, 257, 300, 1025, 4097, 10_001, 65_540] } else { vec![1, 2, 3, 10, 33, 65, 129, 257, 300, 1025, 4097, 10_001, 65_540, 131_080, 300_000] })
        },
        greedy_lengths(ladder(if quick { 140 } else { 600 }, if quick { 1100 } else { 9000 })),
    ];
    f[1].name = "small-utf8".to_owned();
    f[2].name = "small-odd".to_owned();
    f
}

// ---------------------------------------------------------------- C18

/// What makes two parsers the same.
fn identity(t: &Tok) -> Tok {
    match *t {
        Tok::Set { ref set, ref name, min, max } => {
            let chars: BTreeSet<char> = set.chars().collect();
            Tok::Set { set: chars.into_iter().collect(), name: name.clone(), min, max }
        }
        ref t => t.clone(),
    }
}

fn configs(quick: bool) -> Vec<Tok> {
    let mut names: Vec<Option<String>> = ["", "a", "b", "ab", "A", "a.", "é"].iter().map(|s| Some(s.to_string())).collect();
    names.push(None);
    let lim: Vec<Option<usize>> = if quick { vec![None, Some(0), Some(1), Some(2), Some(257)] } else { vec![None, Some(0), Some(1), Some(2), Some(3), Some(255), Some(256), Some(257), Some(65536), Some(1 << 32), Some(usize::max_value())] };
    let sets = ["a", "b", "ab", "ba", "aab", "abc", "0123456789", "9876543210", "", "é", "è", "Ã©", "A", "a-c", "\u{e9}a"];
    let ends: Vec<Option<String>> = vec![None, Some("".to_owned()), Some("a".to_owned()), Some("b".to_owned()), Some("ab".to_owned()), Some("é".to_owned()), Some("A".to_owned()), Some(" ".to_owned())];
    let mut v = vec![];
    for name in &names {
        for &min in &lim {
            for &max in &lim {
                v.push(Tok::Int { name: name.clone(), min, max });
                for s in &sets {
                    v.push(Tok::Set { set: s.to_string(), name: name.clone(), min, max });
                }
            }
        }
        for e in &ends {
            v.push(Tok::Greedy { name: name.clone(), end: e.clone() });
        }
    }
    v
}

/// All pairs of configurations on all construction paths: the hash agrees exactly when the configuration does.
fn identities(name: &str, what: &str, toks: Vec<Tok>) -> Family {
    let bound = format!("all pairs of {} configurations ({}) x {} construction paths, before and after parse and clone", toks.len(), what, PATHS);
    let n = toks.len() as u64;
    Family::new(name, bound, 1, move |_, l| {
        let mut by_hash: HashMap<u64, Tok> = HashMap::new();
        let mut by_id: HashMap<Tok, u64> = HashMap::new();
        for t in &toks {
            let id = identity(t);
            for path in 0..PATHS {
                let r = guard(|| {
                    let p = construct(t, path);
                    let h = p.hash_os();
                    let _ = p.parse("ab12");
                    let c = p.boxed_clone();
                    (h, p.hash_os(), c.hash_os(), c.boxed_clone().hash_os())
                });
                l.states += 1;
                l.transitions += 4;
                let (h, h2, h3, h4) = match r {
                    Ok(x) => x,
                    Err(e) => return violation(format!("panic: {}", e), format!("{:?} path {}", t, path)),
                };
                if h != h2 || h != h3 || h != h4 {
                    return violation("the identity hash changes from call to call or by cloning".to_owned(), format!("{:?} path {}", t, path));
                }
                if let Some(other) = by_hash.get(&h) {
                    if *other != id {
                        return violation(format!("two different parsers have the same identity: {:?} and {:?}", other, id), format!("{:?} path {}", t, path));
                    }
                }
                if let Some(&g) = by_id.get(&id) {
                    if g != h {
                        return violation(format!("equal parsers constructed differently have different identities: {:?}", id), format!("{:?} path {}", t, path));
                    }
                }
                by_hash.insert(h, id.clone());
                by_id.insert(id.clone(), h);
            }
        }
        l.traces += n * PATHS as u64;
        for h in by_hash.keys() {
            l.outcome(h);
        }
        Ok(())
    })
}

/// Names, sets and end strings over a small alphabet that contains likely separators.
fn text_configs(quick: bool) -> Vec<Tok> {
    let alphabet = ['a', 'b', ':', '\u{0}', '\u{ff}'];
    let names: Vec<Option<String>> = Some(None).into_iter().chain(all_strings(&alphabet, if quick { 2 } else { 3 }).into_iter().map(Some)).collect();
    // every subset of eight characters
    let chars = ['a', 'b', 'c', 'd', ':', '\u{0}', '\u{ff}', '\u{100}'];
    let sets: Vec<String> = (0..256u32).map(|m| chars.iter().enumerate().filter(|x| m >> x.0 & 1 == 1).map(|x| *x.1).collect()).collect();
    let ends = names.clone();
    let mut v = vec![];
    for name in &names {
        for &(min, max) in &[(None, None), (Some(1), None), (None, Some(1)), (Some(1), Some(1))] {
            v.push(Tok::Int { name: name.clone(), min, max });
            for s in &sets {
                v.push(Tok::Set { set: s.clone(), name: name.clone(), min, max });
            }
        }
        for e in &ends {
            v.push(Tok::Greedy { name: name.clone(), end: e.clone() });
        }
    }
    v
}

/// Texts and sets of every length that differ at one end only.
fn long_configs(max: usize) -> Vec<Tok> {
    let mut v = vec![];
    for n in (0..=max).chain([511, 512, 1023, 1024, 4095, 4096]) {
        for c in ['a', 'b'] {
            for t in [format!("{}{}", "x".repeat(n), c), format!("{}{}", c, "x".repeat(n))] {
                v.push(Tok::Int { name: Some(t.clone()), min: None, max: None });
                v.push(Tok::Set { name: Some(t.clone()), set: "a".to_owned(), min: None, max: None });
                v.push(Tok::Greedy { name: Some(t.clone()), end: None });
                v.push(Tok::Greedy { name: None, end: Some(t) });
            }
        }
        // n characters in the set, limits of n
        let set: String = (0..n as u32).filter_map(|i| std::char::from_u32(0x21 + i)).collect();
        v.push(Tok::Set { name: None, set: set.clone(), min: None, max: None });
        v.push(Tok::Set { name: None, set: set + "\u{10000}", min: None, max: None });
        v.push(Tok::Int { name: None, min: Some(n), max: None });
        v.push(Tok::Int { name: None, min: None, max: Some(n) });
        v.push(Tok::Int { name: None, min: Some(n), max: Some(n) });
        v.push(Tok::Set { name: None, set: "a".to_owned(), min: Some(n), max: None });
        v.push(Tok::Set { name: None, set: "a".to_owned(), min: None, max: Some(n) });
    }
    for k in 8..64 {
        for d in [0usize, 1] {
            let x = Some((1usize << k) - d);
            v.push(Tok::Int { name: None, min: x, max: None });
            v.push(Tok::Int { name: None, min: None, max: x });
            v.push(Tok::Set { name: None, set: "a".to_owned(), min: x, max: None });
            v.push(Tok::Set { name: None, set: "a".to_owned(), min: None, max: x });
        }
    }
    v
}

/// Every Unicode scalar value as set, as name and as end string: all different.
fn scalar_identities() -> Family {
    Family::new("identities-scalars", "all pairs of 4 x 1112064 parsers: every Unicode scalar value as character set, as INT name, as GREEDY name and as end string".to_owned(), 1, move |_, l| {
        let mut seen: Vec<(u64, u32)> = vec![];
        for c in (0..0x110000u32).filter_map(std::char::from_u32) {
            let t = c.to_string();
            let mut g = GreedyParser::new();
            g.set_end_string(Some(t.clone()));
            let h = [SetParser::new(&t).hash_os(), IntParser::with_name(&t[..]).hash_os(), GreedyParser::with_name(t).hash_os(), g.hash_os()];
            for (i, &h) in h.iter().enumerate() {
                seen.push((h, c as u32 * 4 + i as u32));
            }
            l.states += 4;
            l.transitions += 4;
        }
        l.traces += seen.len() as u64;
        seen.sort();
        for w in seen.windows(2) {
            if w[0].0 == w[1].0 {
                let tell = |x: u32| format!("{} {:?}", ["SET of", "INT named", "GREEDY named", "GREEDY up to"][(x % 4) as usize], std::char::from_u32(x / 4).unwrap());
                return violation(format!("two different parsers have the same identity: {} and {}", tell(w[0].1), tell(w[1].1)), "hash_os of both".to_owned());
            }
        }
        l.outcome(&seen.len());
        Ok(())
    })
}

/// Two parsers at one place of a matcher: they stay apart (own names, own settings) or are one.
fn places(quick: bool) -> Family {
    let mut toks: Vec<Tok> = vec![];
    for name in [None, Some("".to_owned()), Some("x".to_owned()), Some("y".to_owned())] {
        for (min, max) in [(None, None), (Some(1), None), (Some(2), None), (None, Some(1)), (None, Some(2)), (Some(2), Some(2))] {
            toks.push(Tok::Int { name: name.clone(), min, max });
            for s in ["a", "ba", "ab", "a1", "0123456789"] {
                toks.push(Tok::Set { set: s.to_owned(), name: name.clone(), min, max });
            }
        }
        toks.push(Tok::Greedy { name: name.clone(), end: None });
        toks.push(Tok::Greedy { name: name.clone(), end: Some("!".to_owned()) });
        toks.push(Tok::Greedy { name: name.clone(), end: Some("?".to_owned()) });
        toks.push(Tok::Greedy { name: name.clone(), end: Some("a".to_owned()) });
    }
    let heads = all_strings(&['a', 'b', '1'], if quick { 2 } else { 3 });
    let msgs: Vec<String> = heads.iter().flat_map(|h| vec![h.clone(), format!("{}!", h), format!("{}?", h)]).collect();
    let n = toks.len() as u64;
    let bound = format!("all ordered pairs of {} parsers P, Q: patterns P! and Q?, patterns P and Q (same path and different construction paths), behind the same literal; {} messages; both matchers", n, msgs.len());
    Family::new("places", bound, n, move |item, l| {
        let p = &toks[item as usize];
        for q in &toks {
            for path in [0, 1, 4] {
                for &kind in &KINDS {
                    // distinct continuations: both patterns stay reachable under their own names
                    let show = |what: &str, m: &str| format!("{:?} matcher\nP = {:?}\nQ = {:?} (construction path {})\n{}\nm.parse({:?})\n", kind, p, q, path, what, m);
                    let mk = |id: usize, t: &Tok, path: usize, tail: Option<&str>| {
                        let mut cp = vec![TokenType::Literal("k".to_owned()), TokenType::Parser(construct(t, path))];
                        if let Some(s) = tail {
                            cp.push(TokenType::Literal(s.to_owned()));
                        }
                        Pattern::new(None, real::uuid(id), cp, None, None, None)
                    };
                    let r = guard(|| {
                        let mut m = new_matcher(kind);
                        m.add_pattern(mk(0, p, 0, Some("!")));
                        m.add_pattern(mk(1, q, path, Some("?")));
                        let mut m2 = new_matcher(kind);
                        m2.add_pattern(mk(0, p, 0, None));
                        m2.add_pattern(mk(1, q, path, None));
                        (m, m2)
                    });
                    let (m, m2): (Box<dyn Matcher>, Box<dyn Matcher>) = match r {
                        Ok(x) => x,
                        Err(e) => return violation(format!("add_pattern panics: {}", e), show("patterns kP!, kQ?; kP, kQ", "")),
                    };
                    l.states += 2;
                    let t1: Tokens = vec![lit("k"), p.clone(), lit("!")];
                    let t2: Tokens = vec![lit("k"), q.clone(), lit("?")];
                    let u1: Tokens = vec![lit("k"), p.clone()];
                    let u2: Tokens = vec![lit("k"), q.clone()];
                    let same = identity(p) == identity(q);
                    for msg in &msgs {
                        let msg = format!("k{}", msg);
                        let (a, b) = match guard(|| (ask(&*m, &msg), ask(&*m2, &msg))) {
                            Ok(x) => x,
                            Err(e) => return violation(format!("parse panics: {}", e), show("patterns kP!, kQ?; kP, kQ", &msg)),
                        };
                        l.transitions += 2;
                        l.traces += 1;
                        let exp = model::matches(&t1, &msg).map(|v| (0, v)).or_else(|| model::matches(&t2, &msg).map(|v| (1, v)));
                        let got = a.map(|s| (s.id.unwrap_or(99), s.values));
                        if got != exp {
                            return violation(format!("P followed by !, Q followed by ?: reported {:?}, expected {:?}", got, exp), show("patterns #0 = kP!, #1 = kQ?", &msg));
                        }
                        let (x, y) = (model::matches(&u1, &msg), model::matches(&u2, &msg));
                        let exp = if same { y.map(|v| (1, v)) } else { x.map(|v| (0, v)).or(y.map(|v| (1, v))) };
                        let got = b.map(|s| (s.id.unwrap_or(99), s.values));
                        if got != exp {
                            return violation(format!("P and Q at the same place ({}): reported {:?}, expected {:?}", if same { "equal, the second replaces the first" } else { "different, the first one that fits wins" }, got, exp), show("patterns #0 = kP, #1 = kQ", &msg));
                        }
                        l.outcome(&(got, same));
                    }
                }
            }
        }
        Ok(())
    })
}


/// Every sequence of configuration calls leads to the identity of the final configuration.
fn reconfigured_identity(depth: usize) -> Family {
    let n = 15u64;
    Family::new("reconfigured", format!("all sequences of {} configuration, parse and clone calls out of {} on SET, INT and GREEDY parsers", depth, n), n.pow(depth as u32 - 2), move |item, l| {
        for j in 0..n * n {
            let mut ops = vec![];
            let mut x = item * n * n + j;
            for _ in 0..depth {
                ops.push(x % n);
                x /= n;
            }
            let mut chars = "ab".to_owned();
            let mut name: Option<String> = Some("s".to_owned());
            let mut end: Option<String> = Some("s".to_owned());
            let (mut min, mut max) = (None, None);
            let mut sp = SetParser::from_str("s", "ab");
            let mut ip = IntParser::with_name("s");
            let mut gp = GreedyParser::from_str("s", "s");
            for &op in &ops {
                match op {
                    0 => { min = None; sp.set_min_length(None); ip.set_min_length(None); }
                    1 | 2 => { min = Some(op as usize); sp.set_min_length(min); ip.set_min_length(min); }
                    3 => { max = None; sp.set_max_length(None); ip.set_max_length(None); }
                    4 | 5 => { max = Some(op as usize - 3); sp.set_max_length(max); ip.set_max_length(max); }
                    6 => { chars = "a".to_owned(); sp.set_character_set("a"); }
                    7 => { chars = "ab".to_owned(); sp.set_character_set("baab"); }
                    8 => { name = None; sp.set_name(None); ip.set_name(None); gp.set_name(None); }
                    9 => { name = Some("t".to_owned()); sp.set_name(name.clone()); ip.set_name(name.clone()); gp.set_name(name.clone()); }
                    10 => { end = None; gp.set_end_string(None); }
                    11 => { end = Some("t".to_owned()); gp.set_end_string(end.clone()); }
                    13 => { chars = String::new(); sp.set_character_set(""); }
                    12 => { let _ = (sp.parse("aab").is_some(), ip.parse("11a").is_some(), gp.parse("at").is_some()); }
                    _ => { sp = sp.clone(); ip = ip.clone(); gp = gp.clone(); }
                }
            }
            let toks = [Tok::Set { set: chars, name: name.clone(), min, max }, Tok::Int { name: name.clone(), min, max }, Tok::Greedy { name, end }];
            let got = [sp.hash_os(), ip.hash_os(), gp.hash_os()];
            for (t, g) in toks.iter().zip(got.iter()) {
                l.states += 1;
                l.transitions += depth as u64;
                l.traces += 1;
                l.outcome(g);
                if construct(t, 0).hash_os() != *g {
                    return violation(format!("a parser configured step by step has another identity than the same parser constructed directly: {:?}", t), format!("configuration calls {:?}", ops));
                }
            }
        }
        Ok(())
    })
}

fn c18(tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    vec![identities("identities", "kind, name, set, limits, end string", configs(quick)),
         identities("identities-texts", "all short texts over a, b, colon, NUL, U+FF as name and end string, all subsets of 8 characters as set", text_configs(quick)),
         identities("identities-long", "texts of every length differing in the first or last character, sets and limits of every size, limits around powers of two", long_configs(if quick { 130 } else { 1000 })),
         scalar_identities(), places(quick), reconfigured_identity(if quick { 4 } else { 6 })]
}

fn build(p: &str, tier: Tier) -> Option<Check> {
    let (families, rule) = match p {
        "C06" => (c06(tier), "two executions differ when the consumed length or the text length differ"),
        "C07" => (c07(tier), "two executions differ when the consumed length or the end string differ"),
        "C18" => (c18(tier), "two executions differ when the identity hash or the answer differ"),
        _ => return None,
    };
    Some(Check {
        property: p.to_owned(),
        families,
        rule: rule.to_owned(),
        assumptions: vec!["configurations and texts are bounded as listed per family; every Unicode scalar value is covered as a single character".to_owned()],
    })
}

fn main() {
    engine::main(build)
}
