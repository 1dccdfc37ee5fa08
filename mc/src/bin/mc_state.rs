//! C05 (totality), C11 (no side effects, independent clones), C22 (metadata), C23 (work bound).
use actiondb::matcher::compiled_pattern::{CompiledPattern, CompiledPatternBuilder, TokenType};
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::pattern::testmessage::TestMessage;
use actiondb::matcher::{Matcher, MatcherFactory, Pattern};
use actiondb::parsers::{ObjectSafeHash, ParseResult, Parser};
use log::LogLevelFilter;
use mc::engine::{self, guard, violation, Check, Family, Local, Outcome, Tier};
use mc::doc::{obj, s, V};
use mc::logcap;
use mc::model::{self, greedy, int, link_greedy, lit, set, Tok, Tokens};
use mc::nested;
use mc::real::{self, ask, compiled, new_matcher, pattern, Kind, Seen, KINDS};
use mc::routes;
use mc::space::{base_parsers, shaped, Space};
use mc::strings::{all_sequences, all_strings, ladder};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use uuid::Uuid;

fn build_matcher(kind: Kind, pats: &[&Tokens]) -> Box<dyn Matcher> {
    let mut m = new_matcher(kind);
    for (i, p) in pats.iter().enumerate() {
        m.add_pattern(pattern(i, p));
    }
    m
}

fn script(kind: Kind, pats: &[&Tokens], more: &str) -> String {
    let mut s = format!("let mut m = new {:?} matcher\n", kind);
    for (i, p) in pats.iter().enumerate() {
        s += &format!("m.add_pattern(#{} = {})   // {:?}\n", i, model::source(p), p);
    }
    s + more
}

// ---------------------------------------------------------------- C05

type Answers = Arc<Mutex<HashMap<(String, u64), u64>>>;

fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Asks every message of every sequence; nothing may panic. With `trace` the answers are compared with the
/// ones recorded when logging was off.
fn total(name: &str, what: &str, space: Arc<Space>, k: usize, trace: bool, answers: Answers) -> Family {
    let n = space.pats.len() as u64;
    let key = name.to_owned();
    let fixed = k - 1;
    let bound = format!("all {}-sequences of {} patterns ({}) x all {} messages, both matchers, logging {}", k, n, what, space.msgs.len(), if trace { "at trace level" } else { "off" });
    Family::new(&format!("{}-{}", name, if trace { "trace" } else { "quiet" }), bound, n.pow(fixed as u32), move |item, l| {
        logcap::set_level(if trace { LogLevelFilter::Trace } else { LogLevelFilter::Off });
        let mut seq = vec![0usize; k];
        let mut x = item;
        for i in (0..fixed).rev() {
            seq[i] = (x % n) as usize;
            x /= n;
        }
        let mut all: Vec<Option<Seen>> = vec![];
        for last in 0..n as usize {
            seq[k - 1] = last;
            let pats: Vec<&Tokens> = seq.iter().map(|&p| &space.pats[p]).collect();
            for &kind in &KINDS {
                let m = match guard(|| build_matcher(kind, &pats)) {
                    Ok(m) => m,
                    Err(e) => return violation(format!("adding patterns to the {:?} matcher panics: {}", kind, e), script(kind, &pats, "")),
                };
                l.states += 1;
                for msg in &space.msgs {
                    match guard(|| ask(&*m, msg)) {
                        Ok(a) => {
                            l.transitions += 1;
                            l.outcome(&a);
                            all.push(a);
                        }
                        Err(e) => return violation(format!("parse panics in the {:?} matcher: {}", kind, e), script(kind, &pats, &format!("m.parse({:?})\n", msg))),
                    }
                }
            }
        }
        l.traces += all.len() as u64;
        let h = hash(&all);
        let mut map = answers.lock().unwrap();
        match map.get(&(key.clone(), item)) {
            None => { map.insert((key.clone(), item), h); }
            Some(&before) => if before != h {
                let pats: Vec<&Tokens> = seq[..fixed].iter().map(|&p| &space.pats[p]).collect();
                return violation("the answers differ between log level Off and log level Trace".to_owned(),
                                 script(Kind::Trie, &pats, "then each of the patterns of the pool, each message of the space, with logging off and at trace level\n"));
            },
        }
        Ok(())
    })
}

/// One literal pattern matches exactly its own text.
fn exact(name: &str, lits: Vec<String>, msgs: Vec<String>) -> Family {
    let bound = format!("all {} literal texts x all {} messages, both matchers: a match exactly when equal", lits.len(), msgs.len());
    let items = lits.len() as u64;
    Family::new(name, bound, items, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let lt = &lits[item as usize];
        let pat = vec![lit(lt)];
        for &kind in &KINDS {
            let m = match guard(|| build_matcher(kind, &[&pat])) {
                Ok(m) => m,
                Err(e) => return violation(format!("adding a literal panics: {}", e), script(kind, &[&pat], "")),
            };
            l.states += 1;
            for msg in &msgs {
                let a = match guard(|| ask(&*m, msg)) {
                    Ok(a) => a,
                    Err(e) => return violation(format!("parse panics in the {:?} matcher: {}", kind, e), script(kind, &[&pat], &format!("m.parse({:?})\n", msg))),
                };
                l.transitions += 1;
                l.traces += 1;
                l.outcome(&a.is_some());
                if a.is_some() != (msg == lt) {
                    return violation(format!("the literal {:?} {} the message {:?}", lt, if a.is_some() { "matches" } else { "does not match" }, msg),
                                     script(kind, &[&pat], &format!("m.parse({:?})\n", msg)));
                }
            }
        }
        Ok(())
    })
}

/// Every Unicode scalar value as first character of a literal, beside its neighbour.
fn scalars(step: u32) -> Family {
    let all: Vec<char> = (0..0x110000u32).filter_map(std::char::from_u32).collect();
    let chunk = 2048;
    let items = (all.len() as u64 + chunk - 1) / chunk;
    Family::new("scalars", format!("every Unicode scalar value c (every {}. pair) with the next one d: patterns c, cd, c%{{INT}}, d%{{INT}}, x%{{GREEDY}}c; messages c, d, c1, d1, cd, dc, xdc, x", step), items, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let lo = (item * chunk) as usize;
        let hi = (lo + chunk as usize).min(all.len());
        for i in lo..hi {
            if (all[i] as u32) % step != 0 {
                continue;
            }
            let c = all[i].to_string();
            let d = all[(i + 1) % all.len()].to_string();
            let pats: Vec<Tokens> = vec![vec![lit(&c)], vec![lit(&(c.clone() + &d))], vec![lit(&c), int("p")], vec![lit(&d), int("q")], link_greedy(vec![lit("x"), greedy("g"), lit(&c)])];
            let refs: Vec<&Tokens> = pats.iter().collect();
            let msgs = [c.clone(), d.clone(), c.clone() + "1", d.clone() + "1", c.clone() + &d, d.clone() + &c, "x".to_owned() + &d + &c, "x".to_owned()];
            for &kind in &KINDS {
                let m = match guard(|| build_matcher(kind, &refs)) {
                    Ok(m) => m,
                    Err(e) => return violation(format!("adding a pattern panics: {}", e), script(kind, &refs, "")),
                };
                l.states += 1;
                for msg in &msgs {
                    match guard(|| ask(&*m, msg)) {
                        Ok(a) => {
                            l.transitions += 1;
                            l.traces += 1;
                            l.outcome(&a.map(|a| a.id));
                        }
                        Err(e) => return violation(format!("parse panics in the {:?} matcher: {}", kind, e), script(kind, &refs, &format!("m.parse({:?})\n", msg))),
                    }
                }
            }
            // alone: the one-character pattern and its neighbour
            for &kind in &KINDS {
                let r = guard(|| {
                    let m = build_matcher(kind, &[&pats[0]]);
                    (ask(&*m, &c).is_some(), ask(&*m, &d).is_some(), ask(&*m, "").is_some())
                });
                l.transitions += 3;
                if r != Ok((true, false, false)) {
                    return violation(format!("the only pattern {:?} on itself, on {:?} and on the empty message: {:?}", c, d, r), script(kind, &[&pats[0]], ""));
                }
            }
        }
        Ok(())
    })
}

/// Long messages on a small stack.
fn long_messages(max_log: u32) -> Family {
    let pool: Vec<Tokens> = vec![
        vec![set("ab", "s")], vec![int("i")], vec![greedy("g")], link_greedy(vec![greedy("g"), lit("!")]), vec![lit("a"), set("ab", "s"), lit("!")],
        link_greedy(vec![greedy("g"), lit("ab!")]), vec![set("é", "u"), int("i")],
    ];
    let units = ["a", "ab", "1", "é", "€", "😀", "!", " ", "\n"];
    let sizes: Vec<usize> = (0..=max_log).flat_map(|k| vec![(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    let n = sizes.len() as u64;
    Family::new("long-messages", format!("messages of 2^k-1, 2^k, 2^k+1 repetitions (k <= {}) of 9 units, each also followed by '!', against 7 patterns together and alone, both matchers, on a 512 KiB stack", max_log),
                n * units.len() as u64, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let unit = units[(item / n) as usize];
        let msg = unit.repeat(sizes[(item % n) as usize]);
        let msgs = [msg.clone(), msg.clone() + "!", "a".to_owned() + &msg];
        let pool = &pool;
        let r: Result<u64, (String, String)> = std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(512 << 10).spawn_scoped(s, || {
                let mut done = 0;
                let mut groups: Vec<Vec<&Tokens>> = pool.iter().map(|p| vec![p]).collect();
                groups.push(pool.iter().collect());
                for g in &groups {
                    for &kind in &KINDS {
                        let m = build_matcher(kind, g);
                        for msg in &msgs {
                            let r = guard(|| ask(&*m, msg).is_some());
                            done += 1;
                            if let Err(e) = r {
                                return Err((format!("parse of a message of {} bytes panics: {}", msg.len(), e), script(kind, g, &format!("m.parse of {} bytes\n", msg.len()))));
                            }
                        }
                    }
                }
                Ok(done)
            }).expect("spawn").join().expect("join")
        });
        match r {
            Ok(d) => {
                l.states += 16;
                l.transitions += d;
                l.traces += d;
                l.outcome(&item);
                Ok(())
            }
            Err((d, s)) => violation(d, s),
        }
    })
}

/// Long literals (nested, diverging at the end, as end strings) on a small stack.
fn long_literals(max_log: u32) -> Family {
    let units = ["a", "ab", "\u{e9}", "\u{20ac}", "\u{1f600}", "a\u{e9}", " ", "\n", "%"];
    let sizes: Vec<usize> = (4..=max_log).flat_map(|k| vec![(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    let n = sizes.len() as u64;
    Family::new("long-literals", format!("literals of 2^k-1, 2^k, 2^k+1 repetitions (4 <= k <= {}) of 9 units: alone, one character longer, diverging at the last character, as end string, before a parser; asked for themselves and their neighbours, both matchers, on a 512 KiB stack", max_log),
                n * units.len() as u64, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let unit = units[(item / n) as usize];
        let size = sizes[(item % n) as usize];
        let text = unit.repeat(size);
        let mut cut = text.clone();
        cut.pop();
        let pool: Vec<Tokens> = vec![vec![lit(&text)], vec![lit(&format!("{}y", text))], vec![lit(&format!("{}z", cut)), int("i")], vec![lit(&format!("{}{}", text, unit)), int("i")], link_greedy(vec![lit("q"), greedy("g"), lit(&text)]), vec![lit("k"), set(&text, "s")]];
        let msgs = [text.clone(), cut.clone(), format!("{}y", text), format!("{}z1", cut), format!("{}{}1", text, unit), format!("q{}", text), format!("q!{}{}", cut, text), format!("k{}", text), format!("{}\u{ea}", text)];
        let pool = &pool;
        let r: Result<u64, (String, String)> = std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(512 << 10).spawn_scoped(s, || {
                let mut done = 0;
                let orders: [Vec<&Tokens>; 2] = [pool.iter().collect(), pool.iter().rev().collect()];
                for g in &orders {
                    for &kind in &KINDS {
                        let show = |what: String| script(kind, &[], &format!("patterns with a literal of {} x {:?}; {}\n", size, unit, what));
                        let m = match guard(|| build_matcher(kind, g)) {
                            Ok(m) => m,
                            Err(e) => return Err((format!("adding literals of {} bytes panics: {}", text.len(), e), show("added".to_owned()))),
                        };
                        for msg in &msgs {
                            done += 1;
                            if let Err(e) = guard(|| ask(&*m, msg).is_some()) {
                                return Err((format!("parse of a message of {} bytes panics: {}", msg.len(), e), show(format!("m.parse of {} bytes", msg.len()))));
                            }
                        }
                        if let Err(e) = guard(|| m.boxed_clone().parse(&msgs[0]).is_some()) {
                            return Err((format!("cloning panics: {}", e), show("cloned".to_owned())));
                        }
                    }
                }
                Ok(done)
            }).expect("spawn").join().expect("join")
        });
        match r {
            Ok(d) => {
                l.states += 4;
                l.transitions += d;
                l.traces += d;
                l.outcome(&item);
                Ok(())
            }
            Err((d, s)) => violation(d, s),
        }
    })
}

/// Very many alternatives at one place, on a small stack.
fn crowds(quick: bool) -> Family {
    fn nth(i: usize) -> char {
        std::char::from_u32(0x4e00 + i as u32).unwrap()
    }
    // (shape, sizes)
    let shapes: Vec<(&str, fn(usize, usize) -> Tokens, fn(usize) -> String)> = vec![
        ("literals with a common stem", |i, _| vec![lit(&format!("m{}", i))], |i| format!("m{}", i)),
        ("literals that differ in the first character", |i, _| vec![lit(&format!("{}k", nth(i)))], |i| format!("{}k", nth(i))),
        ("literals with a common stem, each before INT", |i, _| vec![lit(&format!("m{}:", i)), int("x")], |i| format!("m{}:5", i)),
        ("literals below a parser", |i, _| vec![int("x"), lit(&format!("-{}-", i))], |i| format!("7-{}-", i)),
        ("literals behind GREEDY", |i, _| link_greedy(vec![greedy("g"), lit(&format!("={:05}", i))]), |i| format!("ab={:05}", i)),
        ("INT of different names", |i, _| vec![int(&format!("n{}", i)), lit(&format!("!{}", i))], |i| format!("5!{}", i)),
        ("SET of one character each", |i, _| vec![set(&nth(i).to_string(), "s")], |i| nth(i).to_string()),
        ("INT of different limits", |i, _| vec![Tok::Int { name: Some("v".to_owned()), min: Some(i + 1), max: Some(i + 1) }], |i| "3".repeat(i + 1)),
    ];
    let sizes: Vec<Vec<usize>> = (0..shapes.len()).map(|s| match s {
        0 | 2 => if quick { vec![1000, 15_000] } else { vec![1000, 10_000, 40_000] },
        1 | 3 => if quick { vec![1000, 15_000] } else { vec![1000, 10_000, 20_900] },
        _ => if quick { vec![500, 3000] } else { vec![500, 2000, 8000] },
    }).collect();
    let items: Vec<(usize, usize)> = (0..shapes.len()).flat_map(|s| sizes[s].iter().map(move |&n| (s, n)).collect::<Vec<_>>()).collect();
    Family::new("crowds", format!("8 shapes of very many alternatives at one place (literals: up to {}, parsers: up to {}), inserted upwards and downwards, asked for the first, the middle, the last and for none; both matchers, cloned too, on a 256 KiB stack", if quick { 15_000 } else { 40_000 }, if quick { 3000 } else { 8000 }),
                items.len() as u64 * 4, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let (shape, n) = items[item as usize / 4];
        let kind = KINDS[item as usize % 2];
        let down = item as usize / 2 % 2 == 1;
        let (what, make, text) = shapes[shape];
        let r: Result<u64, (String, String)> = std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(256 << 10).spawn_scoped(s, || {
                let show = |what2: &str| script(kind, &[], &format!("{} patterns: {}, inserted {}; {}\n", n, what, if down { "downwards" } else { "upwards" }, what2));
                let m = match guard(|| {
                    let mut m = new_matcher(kind);
                    for i in 0..n {
                        let i = if down { n - 1 - i } else { i };
                        m.add_pattern(pattern(i, &make(i, n)));
                    }
                    m
                }) {
                    Ok(m) => m,
                    Err(e) => return Err((format!("adding {} patterns panics: {}", n, e), show("added"))),
                };
                let mut done = n as u64;
                let clone = m.boxed_clone();
                for m in [&m, &clone] {
                    for i in [0, 1, n / 2, n - 2, n - 1] {
                        let msg = text(i);
                        match guard(|| ask(&**m, &msg).and_then(|s| s.id)) {
                            Ok(id) => if id != Some(i) {
                                return Err((format!("the message of pattern {} is answered with {:?}", i, id), show(&msg)));
                            },
                            Err(e) => return Err((format!("parse panics: {}", e), show(&msg))),
                        }
                        done += 1;
                    }
                    for msg in ["", "zzz", "m", "m0x", "~", "\u{10ffff}", "7-", "ab=", "5!x"] {
                        match guard(|| ask(&**m, msg).is_some()) {
                            Ok(any) => if any {
                                return Err(("a message that no pattern consumes is accepted".to_owned(), show(msg)));
                            },
                            Err(e) => return Err((format!("parse panics: {}", e), show(msg))),
                        }
                        done += 1;
                    }
                }
                Ok(done)
            }).expect("spawn").join().expect("join")
        });
        match r {
            Ok(d) => {
                l.states += 2;
                l.transitions += d;
                l.traces += d;
                l.outcome(&item);
                Ok(())
            }
            Err((d, s)) => violation(d, s),
        }
    })
}

/// Messages, remainders and literals with character boundaries at every residue, of every length of a range:
/// whatever byte offset the code cuts a text at (from either end), some of them have no boundary there.
fn offsets(max: usize, trace: bool) -> Family {
    let units = ["\u{e9}", "\u{20ac}", "\u{1f600}"];
    let sizes: Vec<usize> = (0..=max).chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]).filter(|&n| n <= max || n > 300).collect();
    let n = sizes.len() as u64;
    let bound = format!("texts of r ASCII characters (r = 0..3) and n multi-byte characters ({} lengths up to 4097 x 2-, 3- and 4-byte) as message, as remainder after INT, SET and a literal, as captured value and as literal; both matchers, logging {}", n, if trace { "at trace level" } else { "off" });
    Family::new(&format!("offsets-{}", if trace { "trace" } else { "quiet" }), bound, n * 3 * 4, move |item, l| {
        logcap::set_level(if trace { LogLevelFilter::Trace } else { LogLevelFilter::Off });
        let size = sizes[(item % n) as usize];
        let unit = units[(item / n % 3) as usize];
        let pad = "x".repeat((item / n / 3) as usize);
        let text = format!("{}{}", pad, unit.repeat(size));
        let mut sets: Vec<Vec<Tokens>> = vec![
            vec![vec![int("i")], vec![set("ax", "s")], link_greedy(vec![greedy("g"), lit("!")])],
            vec![link_greedy(vec![lit("k"), int("i"), greedy("g"), lit("!")]), vec![lit("k"), int("i"), lit("=")], vec![set(&format!("x{}", unit), "s"), lit(";")]],
        ];
        if !text.is_empty() {
            sets.push(vec![vec![lit(&text), int("i")], vec![lit(&format!("{}y", text))], vec![lit(&text)]]);
            sets.push(vec![link_greedy(vec![greedy("g"), lit(&text)]), vec![int("i"), lit(&text)]]);
            sets.push(vec![vec![Tok::Set { name: Some(text.clone()), set: text.clone(), min: None, max: None }], vec![lit("k"), int(&text)]]);
        }
        let msgs = [text.clone(), format!("{}!", text), format!("1{}", text), format!("k1{}", text), format!("k1{}!", text), format!("a{};", text), format!("{}1", text), format!("{}z", text), format!("{}{}", text, text)];
        for g in &sets {
            let refs: Vec<&Tokens> = g.iter().collect();
            for &kind in &KINDS {
                let m = match guard(|| build_matcher(kind, &refs)) {
                    Ok(m) => m,
                    Err(e) => return violation(format!("adding patterns to the {:?} matcher panics: {}", kind, e), script(kind, &refs, "")),
                };
                l.states += 1;
                for msg in &msgs {
                    let a = match guard(|| ask(&*m, msg)) {
                        Ok(a) => a,
                        Err(e) => return violation(format!("parse of a message of {} bytes panics in the {:?} matcher: {}", msg.len(), kind, e), script(kind, &refs, &format!("m.parse({:?})\n", msg))),
                    };
                    l.transitions += 1;
                    l.traces += 1;
                    l.outcome(&a.as_ref().map(|a| a.id));
                    // the model settles whether there is an answer at all
                    let any = g.iter().any(|p| model::matches(p, msg).is_some());
                    if any != a.is_some() {
                        return violation(format!("the {:?} matcher {} a message that {} of the patterns consumes", kind, if any { "rejects" } else { "accepts" }, if any { "one" } else { "none" }),
                                         script(kind, &refs, &format!("m.parse({:?})\n", msg)));
                    }
                }
            }
        }
        Ok(())
    })
}

/// Names, tags, values and test messages with character boundaries at every residue, of every length of a range.
fn labels(max: usize, trace: bool) -> Family {
    let units = ["\u{e9}", "\u{20ac}", "\u{1f600}"];
    let sizes: Vec<usize> = (0..=max).chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]).filter(|&n| n <= max || n > 300).collect();
    let n = sizes.len() as u64;
    let fields = ["the name", "a tag", "the key of a value", "the text of a value", "a test message", "all of them"];
    let bound = format!("texts of r ASCII characters (r = 0..3) and n multi-byte characters ({} lengths up to 4097 x 2-, 3- and 4-byte) as name, tag, key of a value, text of a value, test message and all of them, of 3 patterns one of which is added twice; both matchers, plain and cloned in 3 ways, logging {}", n, if trace { "at trace level" } else { "off" });
    Family::new(&format!("labels-{}", if trace { "trace" } else { "quiet" }), bound, n * 3 * 4, move |item, l| {
        logcap::set_level(if trace { LogLevelFilter::Trace } else { LogLevelFilter::Off });
        let size = sizes[(item % n) as usize];
        let unit = units[(item / n % 3) as usize];
        let text = format!("{}{}", "x".repeat((item / n / 3) as usize), unit.repeat(size));
        let toks = [vec![lit("a"), int("x")], vec![int("x")], vec![lit("ab")], vec![lit("a"), int("x")]];
        for (f, field) in fields.iter().enumerate() {
            let make = |i: usize| -> Pattern {
                let on = |k: usize| f == k || f == 5;
                let mut values = BTreeMap::new();
                if on(2) || on(3) {
                    values.insert(if on(2) { text.clone() } else { "k".to_owned() }, if on(3) { text.clone() } else { "v".to_owned() });
                }
                let tests = if on(4) { Some(vec![TestMessage::new(text.clone(), values.clone(), Some(vec![text.clone()]))]) } else { None };
                Pattern::new(if on(0) { Some(text.clone()) } else { None }, real::uuid(i), compiled(&toks[i]), tests, if values.is_empty() { None } else { Some(values) }, if on(1) { Some(vec!["t".to_owned(), text.clone()]) } else { None })
            };
            for (kind, route) in KINDS.iter().flat_map(|&k| (0..real::ROUTES).map(move |r| (k, r))) {
                let show = |m: &str| format!("{:?} matcher ({}), 4 patterns with {:?} as {}: a%{{INT:x}}, %{{INT:x}}, ab, a%{{INT:x}} again\n{}", kind, real::ROUTE_NAMES[route], text, field, m);
                let m = match guard(|| real::by_route(kind, (0..toks.len()).map(|i| make(i)).collect(), route)) {
                    Ok(m) => m,
                    Err(e) => return violation(format!("adding or cloning panics in the {:?} matcher: {}", kind, e), show("")),
                };
                l.states += 1;
                for (msg, exp) in [("a1", true), ("7", true), ("ab", true), ("b", false), ("", false), (&text[..], false)].iter() {
                    let a = match guard(|| ask(&*m, msg)) {
                        Ok(a) => a,
                        Err(e) => return violation(format!("parse panics in the {:?} matcher: {}", kind, e), show(&format!("m.parse({:?})\n", msg))),
                    };
                    l.transitions += 1;
                    l.traces += 1;
                    l.outcome(&a.as_ref().map(|a| a.id));
                    if *exp != a.is_some() {
                        return violation(format!("the {:?} matcher {} the message", kind, if *exp { "rejects" } else { "accepts" }), show(&format!("m.parse({:?})\n", msg)));
                    }
                }
            }
        }
        Ok(())
    })
}

/// Patterns put together by hand may contain empty literals, and literals side by side.
fn with_empty_literals(lits: &[&str], parsers: &[Tok], max: usize) -> Vec<Tokens> {
    let mut toks: Vec<Tok> = vec![lit("")];
    toks.extend(lits.iter().map(|s| lit(s)));
    toks.extend(parsers.iter().cloned());
    let all = all_sequences(toks.len(), max);
    all.iter().map(|s| s.iter().map(|&i| toks[i].clone()).collect::<Tokens>())
       .filter(|t: &Tokens| t.windows(2).any(|w| matches!((&w[0], &w[1]), (Tok::Lit(_), Tok::Lit(_)))) || t.iter().any(|x| matches!(x, Tok::Lit(s) if s.is_empty())))
       .collect()
}

/// The log level changes between two calls.
fn levels() -> Family {
    let all = [LogLevelFilter::Off, LogLevelFilter::Error, LogLevelFilter::Warn, LogLevelFilter::Info, LogLevelFilter::Debug, LogLevelFilter::Trace];
    let pool: Vec<Tokens> = vec![vec![lit("ab")], vec![lit("a"), int("n")], vec![lit("é"), set("ab", "s")], link_greedy(vec![lit("a"), greedy("g"), lit("b")]), vec![int("n")]];
    let msgs = ["ab", "a1", "éb", "axb", "7", "x", ""];
    Family::new("levels", "all sequences of 3 calls (parse of 7 messages, add of 5 patterns, clone, compiling of two texts) on both matchers, all pairs of log levels before the second and the third of them, then all messages".to_owned(), 1, move |_, l| {
        let ops = msgs.len() + pool.len() + 3;
        for &kind in &KINDS {
            for seq in all_sequences(ops, 3) {
                if seq.len() < 3 || seq[1] >= msgs.len() && seq[1] < msgs.len() + 2 {
                    continue;
                }
                let run = |a: LogLevelFilter, b: LogLevelFilter| guard(|| {
                    let mut out: Vec<Option<Seen>> = vec![];
                    let mut m = new_matcher(kind);
                    m.add_pattern(pattern(0, &pool[0]));
                    m.add_pattern(pattern(1, &pool[1]));
                    for (i, &op) in seq.iter().enumerate() {
                        logcap::set_level([a, a, b][i]);
                        if op < msgs.len() {
                            out.push(ask(&*m, msgs[op]));
                        } else if op < msgs.len() + pool.len() {
                            m.add_pattern(pattern(op - msgs.len(), &pool[op - msgs.len()]));
                        } else if op == msgs.len() + pool.len() {
                            m = m.boxed_clone();
                        } else {
                            let ok = actiondb::grammar::parser::pattern(if op % 2 == 0 { "a%{INT:n}" } else { "a%{FOO" }).is_ok();
                            assert!(ok == (op % 2 == 0));
                        }
                    }
                    out.extend(msgs.iter().map(|t| ask(&*m, t)));
                    out
                });
                let alone = run(LogLevelFilter::Off, LogLevelFilter::Off);
                for &a in &all {
                    for &b in &[LogLevelFilter::Off, LogLevelFilter::Error, LogLevelFilter::Debug, LogLevelFilter::Trace] {
                        let got = run(a, b);
                        l.states += 1;
                        l.transitions += 3 + msgs.len() as u64;
                        l.traces += 1;
                        if got != alone || alone.is_err() {
                            logcap::set_level(LogLevelFilter::Off);
                            return violation(format!("answers {:?} instead of {:?}", got, alone), format!("{:?} matcher with {} and {}; calls {:?} (of parse {:?}, add {:?}, clone, compile), log level {:?} for the first two, {:?} afterwards\n", kind, model::source(&pool[0]), model::source(&pool[1]), seq, msgs, pool.iter().map(|p| model::source(p)).collect::<Vec<_>>(), a, b));
                        }
                    }
                }
                l.outcome(&alone);
            }
        }
        logcap::set_level(LogLevelFilter::Off);
        Ok(())
    })
}

fn c05(tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let answers: Answers = Arc::new(Mutex::new(HashMap::new()));
    let u = ['é', 'è', '€', '₭', '😀', '😁', 'a', '1'];
    let mut f = vec![];
    let lits = all_strings(&u, if quick { 2 } else { 3 }).into_iter().filter(|s| !s.is_empty()).collect();
    f.push(exact("literal-exact", lits, all_strings(&u, 3)));
    let odd = ['\u{0}', '\n', '\r', ' ', '\t', '%', '{', '}', '\\', '"', 'A', 'a', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{feff}', '\u{301}'];
    f.push(exact("literal-exact-odd", all_strings(&odd, 2).into_iter().filter(|s| !s.is_empty()).collect(), all_strings(&odd, 2)));
    f.push(scalars(1));
    let p = shaped(&["é", "è", "€", "₭", "😀", "é€", "éa", "éè", "a"], &[set("éa", "s"), set("€😁", "t"), set("\u{c3}\u{a9}", "w"), greedy("g"), int("i")], 2);
    let sp = Arc::new(Space::new(p, all_strings(&['é', 'è', '€', '₭', '😁', 'Ã', 'a', '1'], 3), true));
    f.push(total("utf8", "up to 2 tokens over multi-byte literals, SET, GREEDY, INT", sp.clone(), 2, false, answers.clone()));
    let p = shaped(&["é", "è€", "éè", "a"], &[set("éa", "s"), greedy("g"), int("i")], if quick { 1 } else { 2 });
    let sp3 = Arc::new(Space::new(p, all_strings(&['é', 'è', '€', 'a', '1'], 3), true));
    f.push(total("utf8-3", "multi-byte literals, SET, GREEDY, INT", sp3.clone(), 3, false, answers.clone()));
    let p = shaped(&["a", "b", "ab", "1"], &base_parsers(), 2);
    let spa = Arc::new(Space::new(p, all_strings(&['a', 'b', '1'], 4), true));
    f.push(total("ascii", "up to 2 tokens over a,b,ab,1, INT, SET, GREEDY", spa.clone(), 2, false, answers.clone()));
    let p = with_empty_literals(&["a", "é"], &[int("i"), set("aé", "s"), greedy("g")], 3);
    let spe = Arc::new(Space::new(p, all_strings(&['é', 'a', '1'], 3), true));
    f.push(total("empty-literals", "up to 3 tokens over the empty literal, a, é, INT, SET, GREEDY", spe.clone(), 2, false, answers.clone()));
    f.push(long_messages(if quick { 15 } else { 17 }));
    f.push(long_literals(if quick { 15 } else { 17 }));
    f.push(crowds(quick));
    f.push(offsets(if quick { 140 } else { 1200 }, false));
    f.push(labels(if quick { 140 } else { 1200 }, false));
    f.push(levels());
    f.push(total("utf8", "up to 2 tokens over multi-byte literals, SET, GREEDY, INT", sp, 2, true, answers.clone()));
    f.push(total("utf8-3", "multi-byte literals, SET, GREEDY, INT", sp3, 3, true, answers.clone()));
    f.push(total("ascii", "up to 2 tokens over a,b,ab,1, INT, SET, GREEDY", spa, 2, true, answers));
    f.push(offsets(if quick { 140 } else { 1200 }, true));
    f.push(labels(if quick { 140 } else { 1200 }, true));
    f
}

// ---------------------------------------------------------------- C11

/// Runs `f` in a forked process and returns what it wrote: an answer no earlier call in this process can have influenced.
fn pristine<F: FnOnce() -> Vec<u8>>(f: F) -> Vec<u8> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fds[0]);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| b"panic".to_vec());
            let mut off = 0;
            while off < r.len() {
                let n = libc::write(fds[1], r[off..].as_ptr() as *const libc::c_void, r.len() - off);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        out
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Add(usize, usize),
    Parse(usize, usize),
    Clone(usize, usize),
    Boxed(usize, usize),
}

enum Slot<M: Matcher + Clone> {
    Own(M),
    Boxed(Box<dyn Matcher>),
}

impl<M: Matcher + Clone> Slot<M> {
    fn get(&self) -> &dyn Matcher {
        match *self { Slot::Own(ref m) => m, Slot::Boxed(ref b) => &**b }
    }
    fn add(&mut self, p: Pattern) {
        match *self { Slot::Own(ref mut m) => m.add_pattern(p), Slot::Boxed(ref mut b) => b.add_pattern(p) }
    }
    fn cloned(&self, boxed: bool) -> Slot<M> {
        match *self {
            Slot::Own(ref m) if !boxed => Slot::Own(m.clone()),
            ref s => Slot::Boxed(s.get().boxed_clone()),
        }
    }
}

type Oracle = HashMap<(Kind, Vec<usize>, usize), String>;

fn seen_text(a: &Option<Seen>) -> String {
    format!("{:?}", a)
}

fn history<M: Matcher + Clone>(kind: Kind, fresh: fn() -> M, ops: &[Op], pats: &[Tokens], msgs: &[String], oracle: &Oracle, l: &mut Local) -> Outcome {
    let mut lists: [Vec<usize>; 2] = [vec![], vec![]];
    let mut slots = [Slot::Own(fresh()), Slot::Own(fresh())];
    let show = |upto: usize| -> String {
        let mut s = format!("let mut m = [new {:?} matcher, new {:?} matcher]\n", kind, kind);
        for op in &ops[..upto] {
            s += &match *op {
                Op::Add(k, p) => format!("m[{}].add_pattern({})\n", k, model::source(&pats[p])),
                Op::Parse(k, m) => format!("m[{}].parse({:?})\n", k, msgs[m]),
                Op::Clone(a, b) => format!("m[{}] = m[{}].clone()\n", b, a),
                Op::Boxed(a, b) => format!("m[{}] = m[{}].boxed_clone()\n", b, a),
            };
        }
        s
    };
    let check = |slots: &[Slot<M>; 2], lists: &[Vec<usize>; 2], k: usize, m: usize, upto: usize, l: &mut Local| -> Outcome {
        let got = match guard(|| ask(slots[k].get(), &msgs[m])) {
            Ok(a) => seen_text(&a),
            Err(e) => return violation(format!("parse panics: {}", e), show(upto) + &format!("m[{}].parse({:?})\n", k, msgs[m])),
        };
        l.transitions += 1;
        let exp = &oracle[&(kind, lists[k].clone(), m)];
        if got != *exp {
            return violation(format!("the answer is {} but a fresh matcher with the same patterns answers {}", got, exp),
                             show(upto) + &format!("m[{}].parse({:?})\n", k, msgs[m]));
        }
        l.outcome(&(got, &lists[k]));
        Ok(())
    };
    for (i, op) in ops.iter().enumerate() {
        match *op {
            Op::Add(k, p) => {
                let id = lists[k].len();
                if let Err(e) = guard(|| slots[k].add(pattern(id, &pats[p]))) {
                    return violation(format!("add_pattern panics: {}", e), show(i + 1));
                }
                lists[k].push(p);
            }
            Op::Parse(k, m) => check(&slots, &lists, k, m, i, l)?,
            Op::Clone(a, b) | Op::Boxed(a, b) => {
                let c = match guard(|| slots[a].cloned(matches!(*op, Op::Boxed(..)))) {
                    Ok(c) => c,
                    Err(e) => return violation(format!("clone panics: {}", e), show(i + 1)),
                };
                slots[b] = c;
                lists[b] = lists[a].clone();
            }
        }
    }
    for k in 0..2 {
        for m in 0..msgs.len() {
            check(&slots, &lists, k, m, ops.len(), l)?;
        }
    }
    l.states += 1;
    l.traces += 1;
    Ok(())
}

fn histories(name: &str, pats: Vec<Tokens>, msgs: Vec<String>, depth: usize) -> Family {
    let mut oracle: Oracle = HashMap::new();
    for list in all_sequences(pats.len(), depth) {
        for m in 0..msgs.len() {
            for &kind in &KINDS {
                let r = pristine(|| {
                    let refs: Vec<&Tokens> = list.iter().map(|&p| &pats[p]).collect();
                    let mt = build_matcher(kind, &refs);
                    seen_text(&ask(&*mt, &msgs[m])).into_bytes()
                });
                oracle.insert((kind, list.clone(), m), String::from_utf8(r).unwrap());
            }
        }
    }
    let mut ops = vec![];
    for k in 0..2 {
        for p in 0..pats.len() {
            ops.push(Op::Add(k, p));
        }
        for m in 0..msgs.len() {
            ops.push(Op::Parse(k, m));
        }
        ops.push(Op::Clone(k, 1 - k));
        ops.push(Op::Boxed(k, 1 - k));
    }
    let n = ops.len();
    let bound = format!("all histories of {} operations out of {} (add one of {} patterns, parse one of {} messages, clone, boxed clone; two matchers of each kind), every history closed by asking both matchers every message; {} reference answers from single-use processes",
                        depth, n, pats.len(), msgs.len(), oracle.len());
    // symmetric under swapping the matchers: the first operation is on matcher 0
    let firsts = n / 2;
    let items = (firsts * n) as u64;
    Family::new(name, bound, items, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let mut h = vec![ops[item as usize / n], ops[item as usize % n]];
        h.resize(depth, ops[0]);
        let inner = (n as u64).pow(depth as u32 - 2);
        for j in 0..inner {
            let mut x = j;
            for i in 2..depth {
                h[i] = ops[(x % n as u64) as usize];
                x /= n as u64;
            }
            history(Kind::Trie, <TrieMatcherFactory as MatcherFactory>::new_matcher, &h, &pats, &msgs, &oracle, l)?;
            history(Kind::SuffixArray, <SuffixArrayMatcherFactory as MatcherFactory>::new_matcher, &h, &pats, &msgs, &oracle, l)?;
        }
        Ok(())
    })
}

/// The same message asked n times, then every message: as at the first time.
fn repetition(pool: Vec<Tokens>, msgs: Vec<String>, counts: Vec<usize>) -> Family {
    let n = pool.len() as u64;
    let bound = format!("all ordered pairs of {} patterns x each of {} messages asked {:?} times, then every message again, both matchers", n, msgs.len(), counts);
    Family::new("repetition", bound, n * n, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let pats = [&pool[(item / n) as usize], &pool[(item % n) as usize]];
        for &kind in &KINDS {
            for first in &msgs {
                let r = guard(|| {
                    let m = build_matcher(kind, &pats);
                    let before: Vec<_> = msgs.iter().map(|x| ask(&*m, x)).collect();
                    let mut total = 0;
                    for &c in &counts {
                        while total < c {
                            let _ = m.parse(first);
                            total += 1;
                        }
                        let after: Vec<_> = msgs.iter().map(|x| ask(&*m, x)).collect();
                        if after != before {
                            return Err((total, before, after));
                        }
                    }
                    Ok(total)
                });
                l.states += 1;
                l.traces += 1;
                match r {
                    Ok(Ok(t)) => {
                        l.transitions += t as u64 + (counts.len() * msgs.len()) as u64;
                        l.outcome(&item);
                    }
                    Ok(Err((t, b, a))) => return violation(format!("after {} parse calls the answers changed from {:?} to {:?}", t, b, a), script(kind, &pats, &format!("{} x m.parse({:?}), then {:?}\n", t, first, msgs))),
                    Err(e) => return violation(format!("panic: {}", e), script(kind, &pats, &format!("m.parse({:?})\n", first))),
                }
            }
        }
        Ok(())
    })
}

/// Very many calls on one matcher: parse calls, additions, clones of clones.
fn endurance(calls: usize, adds: usize, clones: usize) -> Family {
    let sets: Vec<Vec<Tokens>> = vec![
        vec![vec![lit("a")]],
        vec![vec![int("x")]],
        vec![vec![lit("a"), int("x")], vec![lit("ab")], link_greedy(vec![greedy("g"), lit("b")])],
        vec![vec![set("ab", "s")], vec![int("x"), lit("a")], vec![int("y"), lit("b")], vec![lit("ab"), greedy("h")]],
    ];
    let msgs: Vec<String> = ["a", "ab", "1", "a1", "1a", "1b", "zz", "", "abb"].iter().map(|x| x.to_string()).collect();
    let n = sets.len() as u64;
    Family::new("endurance", format!("{} matchers of each kind: {} parse calls, each answer compared with the first one to that message, such that every message meets every number of calls; {} additions of the stored patterns with a question after each; {} clones of clones", n, calls, adds, clones), n * 2 * 3, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let pats: Vec<&Tokens> = sets[(item / 6) as usize].iter().collect();
        let kind = KINDS[(item / 3 % 2) as usize];
        let what = item % 3;
        let fresh: Vec<Option<Seen>> = match guard(|| msgs.iter().map(|m| ask(&*build_matcher(kind, &pats), m)).collect::<Vec<_>>()) {
            Ok(f) => f,
            Err(e) => return violation(format!("panic: {}", e), script(kind, &pats, "")),
        };
        let r = guard(|| {
            let steps = [calls, adds, clones][what as usize];
            // every message meets every number of calls
            let rounds = if what == 0 { msgs.len() } else { 1 };
            for round in 0..rounds {
                let mut m = build_matcher(kind, &pats);
                for i in 0..steps {
                    match what {
                        1 => m.add_pattern(pattern(i % pats.len(), pats[i % pats.len()])),
                        2 => m = m.boxed_clone(),
                        _ => {}
                    }
                    let j = (i + round) % msgs.len();
                    let got = ask(&*m, &msgs[j]);
                    if got != fresh[j] {
                        return Err((i, j, got));
                    }
                }
            }
            Ok(rounds * steps)
        });
        l.states += 1;
        l.traces += 1;
        let name = ["m.parse", "m.add_pattern of the stored patterns in turn", "m = m.boxed_clone()"][what as usize];
        match r {
            Ok(Ok(t)) => {
                l.transitions += t as u64;
                l.outcome(&item);
                Ok(())
            }
            Ok(Err((i, j, got))) => violation(format!("after {} steps ({}) {:?} is answered by {:?}, on a new matcher by {:?}", i, name, msgs[j], got, fresh[j]), script(kind, &pats, &format!("{} steps of {}, asking {:?} in turn\n", i, name, msgs))),
            Err(e) => violation(format!("panic: {}", e), script(kind, &pats, name)),
        }
    })
}

/// Ask one message, then another one: the second answer is the one of a matcher that was never asked before.
fn message_pairs(name: &str, pool: Vec<Tokens>, k: usize, msgs: Vec<String>) -> Family {
    let n = pool.len() as u64;
    let bound = format!("all {}-sequences of {} patterns x all ordered pairs of {} messages, both matchers", k, n, msgs.len());
    Family::new(name, bound, n.pow(k as u32), move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let pats: Vec<&Tokens> = (0..k as u32).map(|i| &pool[(item / n.pow(i) % n) as usize]).collect();
        for &kind in &KINDS {
            let fresh: Vec<Option<Seen>> = match guard(|| msgs.iter().map(|m| ask(&*build_matcher(kind, &pats), m)).collect::<Vec<_>>()) {
                Ok(f) => f,
                Err(e) => return violation(format!("panic: {}", e), script(kind, &pats, "")),
            };
            for a in &msgs {
                let m = build_matcher(kind, &pats);
                for (j, b) in msgs.iter().enumerate() {
                    let got = match guard(|| { let _ = m.parse(a); ask(&*m, b) }) {
                        Ok(g) => g,
                        Err(e) => return violation(format!("panic: {}", e), script(kind, &pats, &format!("m.parse({:?}); m.parse({:?})\n", a, b))),
                    };
                    l.transitions += 2;
                    l.traces += 1;
                    l.outcome(&got);
                    if got != fresh[j] {
                        return violation(format!("the answer is {:?} after another message was parsed, {:?} before", got, fresh[j]), script(kind, &pats, &format!("m.parse({:?}); m.parse({:?})\n", a, b)));
                    }
                }
                l.states += 1;
            }
        }
        Ok(())
    })
}

/// Clone a matcher with k patterns, extend the clone and the original differently, drop one of them.
fn clone_pool(pool: Vec<Tokens>, msgs: Vec<String>) -> Family {
    fn one<M: Matcher + Clone>(kind: Kind, fresh: fn() -> M, pool: &[Tokens], seq: &[usize; 3], msgs: &[String], l: &mut Local) -> Outcome {
        let all = |m: &dyn Matcher| -> Vec<Option<Seen>> { msgs.iter().map(|x| ask(m, x)).collect() };
        let refs: Vec<&Tokens> = seq.iter().map(|&p| &pool[p]).collect();
        let r = guard(|| {
            let build = |ids: &[usize]| {
                let mut m = fresh();
                for &i in ids {
                    m.add_pattern(pattern(i, refs[i]));
                }
                m
            };
            let (two, three, alt) = (all(&build(&[0, 1])), all(&build(&[0, 1, 2])), all(&build(&[0, 2])));
            let mut m = build(&[0, 1]);
            let mut c = m.clone();
            let mut b = m.boxed_clone();
            if all(&c) != two { return Err("a clone answers differently from the original") }
            if all(&*b) != two { return Err("a boxed clone answers differently from the original") }
            c.add_pattern(pattern(2, refs[2]));
            if all(&m) != two || all(&*b) != two { return Err("adding to a clone changed the original or another clone") }
            if all(&c) != three { return Err("a pattern added to a clone gives other answers than one added to a fresh matcher") }
            b.add_pattern(pattern(2, refs[2]));
            if all(&m) != two { return Err("adding to a boxed clone changed the original") }
            if all(&*b) != three { return Err("a pattern added to a boxed clone gives other answers than one added to a fresh matcher") }
            drop(c);
            m.add_pattern(pattern(2, refs[2]));
            if all(&m) != three { return Err("a pattern added after cloning gives other answers than on a fresh matcher") }
            let again = b.boxed_clone();
            drop(b);
            if all(&*again) != three { return Err("a clone of a clone answers differently") }
            // clone early, extend late
            let mut m = build(&[0]);
            let mut c = m.clone();
            m.add_pattern(pattern(1, refs[1]));
            c.add_pattern(pattern(2, refs[2]));
            if all(&m) != two || all(&c) != alt { return Err("original and clone, extended differently, influence each other") }
            Ok(())
        });
        l.states += 3;
        l.traces += 1;
        l.transitions += 11 * msgs.len() as u64;
        l.outcome(&(seq, kind));
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => violation(e.to_owned(), script(kind, &refs[..2], &format!("clone, boxed_clone, then add {} to one of them\n", model::source(refs[2])))),
            Err(e) => violation(format!("panic: {}", e), script(kind, &refs, "with clones in between\n")),
        }
    }
    let n = pool.len() as u64;
    let bound = format!("all 3-sequences of {} patterns: clone and boxed clone after two of them, extend clone and original in both orders, all {} messages, both matchers", n, msgs.len());
    Family::new("clone-pool", bound, n * n, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        for x in 0..n {
            let seq = [(item / n) as usize, (item % n) as usize, x as usize];
            one(Kind::Trie, <TrieMatcherFactory as MatcherFactory>::new_matcher, &pool, &seq, &msgs, l)?;
            one(Kind::SuffixArray, <SuffixArrayMatcherFactory as MatcherFactory>::new_matcher, &pool, &seq, &msgs, l)?;
        }
        Ok(())
    })
}

/// Clones of clones of clones.
fn generations(pool: Vec<Tokens>, msgs: Vec<String>, k: usize, depth: usize) -> Family {
    fn one<M: Matcher + Clone>(fresh: fn() -> M, refs: &[&Tokens], msgs: &[String], depth: usize) -> Result<(), String> {
        let all = |m: &dyn Matcher| -> Vec<Option<Seen>> { msgs.iter().map(|x| ask(m, x)).collect() };
        // the last one is added to a clone
        let build = |n: usize, odd: bool| {
            let mut m = fresh();
            for (i, t) in refs.iter().enumerate().take(n) {
                let mut p = pattern(i, t);
                for _ in 0..if odd { depth } else { 0 } {
                    p = p.clone();
                }
                m.add_pattern(p);
            }
            m
        };
        let n = refs.len();
        let (before, after) = (all(&build(n - 1, false)), all(&build(n, false)));
        if all(&build(n, true)) != after {
            return Err(format!("patterns cloned {} times one after the other give other answers", depth));
        }
        let (mut c, mut b): (M, Box<dyn Matcher>) = (build(n - 1, false), Box::new(build(n - 1, false)));
        for d in 1..depth + 1 {
            c = c.clone();
            b = b.boxed_clone();
            if all(&c) != before || all(&*b) != before {
                return Err(format!("clone number {} of a clone answers differently", d));
            }
            if d == depth || d % 7 == 3 {
                let (mut c, mut b) = (c.clone(), b.boxed_clone());
                c.add_pattern(pattern(n - 1, refs[n - 1]));
                b.add_pattern(pattern(n - 1, refs[n - 1]));
                if all(&c) != after || all(&*b) != after || all(&*b.boxed_clone()) != after {
                    return Err(format!("a pattern added to clone number {} of a clone gives other answers than one added to a fresh matcher", d + 1));
                }
            }
        }
        Ok(())
    }
    let seqs: Vec<Vec<usize>> = all_sequences(pool.len(), k).into_iter().filter(|s| s.len() > 1).collect();
    let bound = format!("all {} sequences of 2 to {} of {} patterns: clones of clones, {} one after the other, then another pattern; all {} messages, both matchers", seqs.len(), k, pool.len(), depth, msgs.len());
    Family::new("generations", bound, seqs.len() as u64, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let refs: Vec<&Tokens> = seqs[item as usize].iter().map(|&p| &pool[p]).collect();
        for &kind in &KINDS {
            let r = guard(|| match kind {
                Kind::Trie => one(<TrieMatcherFactory as MatcherFactory>::new_matcher, &refs, &msgs, depth),
                Kind::SuffixArray => one(<SuffixArrayMatcherFactory as MatcherFactory>::new_matcher, &refs, &msgs, depth),
            });
            l.states += 2 * depth as u64;
            l.traces += 1;
            l.transitions += 2 * (depth * (1 + msgs.len())) as u64;
            l.outcome(&(item, kind));
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return violation(e, script(kind, &refs, "the last one added to clones of clones\n")),
                Err(e) => return violation(format!("panic: {}", e), script(kind, &refs, "clones of clones\n")),
            }
        }
        Ok(())
    })
}

fn token_view(cp: &CompiledPattern) -> Vec<String> {
    cp.iter().map(|t| match *t {
        TokenType::Literal(ref s) => format!("literal {:?}", s),
        TokenType::Parser(ref p) => format!("parser {:x} {:?}", p.hash_os(), p.name()),
    }).collect()
}

/// Builders, pattern clones.
fn builders(depth: usize) -> Family {
    // ops: 0 literal a, 1 literal b, 2 INT, 3 SET, 4 GREEDY, 5 build, 6 clone the last built pattern and pop a token of the clone
    let toks = [lit("a"), lit("b"), int("x"), set("ab", "s"), greedy("g")];
    let n = 7u64;
    Family::new("builder", format!("all sequences of {} operations out of {} on a pattern builder (two literals, three parsers, build, clone-and-consume a built pattern)", depth, n), n.pow(depth as u32 - 3), move |item, l| {
        for j in 0..n.pow(3) {
            let mut x = item * n.pow(3) + j;
            let mut ops = vec![];
            for _ in 0..depth {
                ops.push(x % n);
                x /= n;
            }
            let r = guard(|| {
                let mut b = CompiledPatternBuilder::new();
                let mut model: Tokens = vec![];
                let mut built: Vec<(CompiledPattern, Vec<String>)> = vec![];
                for &op in &ops {
                    match op {
                        0 | 1 => {
                            let t = &toks[op as usize];
                            if let Tok::Lit(ref s) = *t { b.literal(s.clone()); }
                            model.push(t.clone());
                        }
                        2..=4 => {
                            let t = &toks[op as usize];
                            b.parser(real::parser(t));
                            model.push(t.clone());
                        }
                        5 => {
                            let cp = b.build();
                            let expected = token_view(&compiled(&model));
                            if token_view(&cp) != expected {
                                return Err(format!("build gives {:?}, expected {:?}", token_view(&cp), expected));
                            }
                            built.push((cp, expected));
                        }
                        _ => if let Some(last) = built.last() {
                            let mut p = Pattern::with_uuid(real::uuid(1));
                            p.set_pattern(last.0.clone());
                            let mut q = p.clone();
                            let _ = q.pop_first_token();
                            if token_view(p.pattern()) != last.1 {
                                return Err("consuming a token of a cloned pattern changed the original".to_owned());
                            }
                            if token_view(q.pattern()) != last.1[1.min(last.1.len())..] {
                                return Err("a cloned pattern lost more than its first token".to_owned());
                            }
                        },
                    }
                    for (cp, exp) in &built {
                        if token_view(cp) != *exp {
                            return Err(format!("a built pattern changed to {:?} from {:?}", token_view(cp), exp));
                        }
                    }
                }
                Ok(hash(&model))
            });
            l.states += 1;
            l.transitions += depth as u64;
            l.traces += 1;
            let names = ["literal(a)", "literal(b)", "parser(INT:x)", "parser(SET)", "parser(GREEDY)", "build", "clone the last built pattern, pop_first_token on the clone"];
            let show = || ops.iter().map(|&o| names[o as usize].to_owned()).collect::<Vec<_>>().join("\n");
            match r {
                Ok(Ok(h)) => l.outcome(&h),
                Ok(Err(e)) => return violation(e, show()),
                Err(e) => return violation(format!("panic: {}", e), show()),
            }
        }
        Ok(())
    })
}

fn c11(tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let s = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    let d = if quick { 5 } else { 6 };
    let mut f = vec![];
    f.push(histories("histories-literal", vec![vec![lit("a"), int("x")], vec![lit("ab")], vec![lit("a"), greedy("g")]], s(&["a1", "ab", "a", "zz"]), d));
    f.push(histories("histories-parser", vec![vec![int("x")], vec![int("x"), lit("b"), int("y")], vec![set("1b", "s")]], s(&["1", "1b1", "b", "11"]), d));
    let pool = shaped(&["a", "ab"], &[int("x"), set("ab1", "s"), greedy("g")], 2);
    f.push(repetition(pool.clone(), s(&["a", "ab", "1", "a1", "ab1", "b", ""]), if quick { vec![1, 2, 3, 4, 8, 16, 32, 64, 100, 128, 256, 300] } else { vec![1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 32, 64, 100, 128, 256, 300, 512, 1000, 1024, 4096, 10000, 65537] }));
    f.push(if quick { endurance(1_100_000, 140_000, 70_000) } else { endurance(17_000_000, 1_100_000, 140_000) });
    f.push(message_pairs("message-pairs", pool.clone(), 2, all_strings(&['a', 'b', '1'], 3)));
    let words = |w: &[&str]| -> Vec<Tokens> { w.iter().map(|w| vec![lit(w)]).collect() };
    f.push(message_pairs("message-pairs-words", words(&["a", "b", "ab", "ba", "aaa", "bbbb", "abb", "é"]), 3, ["", "a", "b", "ab", "ba", "aaa", "bbbb", "abb", "é", "aa", "bbb", "abbb", "c"].iter().map(|s| s.to_string()).collect()));
    let mut mix = words(&["a", "ab", "bbbb"]);
    mix.extend(vec![vec![int("n")], vec![lit("a"), int("n")], vec![set("ab", "s")], vec![lit("a"), greedy("g")]]);
    f.push(message_pairs("message-pairs-mixed", mix, if quick { 3 } else { 4 }, ["", "a", "b", "ab", "ba", "bbbb", "a1", "1", "aa", "ab1", "c", "abc"].iter().map(|s| s.to_string()).collect()));
    f.push(clone_pool(shaped(&["a", "ab", "b"], &[int("x"), set("ab", "s"), greedy("g")], 2), all_strings(&['a', 'b', '1'], 3)));
    f.push(generations(shaped(&["a", "ab"], &[int("x"), set("ab", "s"), greedy("g")], 2), ["a", "ab", "1", "a1", "ab1", "aab", "b", "1a", "1ab", "é", ""].iter().map(|s| s.to_string()).collect(), if quick { 2 } else { 3 }, if quick { 40 } else { 70 }));
    f.push(builders(if quick { 6 } else { 8 }));
    f.push(nested::callbacks(if quick { 3 } else { 4 }));
    // last: the log level stays
    f.push(nested::log_callbacks(if quick { 2 } else { 3 }, true));
    f
}

// ---------------------------------------------------------------- C22

type Meta = (Option<String>, Option<BTreeMap<String, String>>, Option<Vec<String>>);

fn meta(id: usize, variant: usize) -> Meta {
    let mut v = BTreeMap::new();
    v.insert(format!("key{}", id), format!("value{}", id));
    v.insert("common".to_owned(), format!("common{}", id));
    v.insert("x".to_owned(), format!("extra{}", id));
    match variant % 8 {
        0 => (Some(format!("name{}", id)), Some(v), Some(vec![format!("tag{}", id), "shared".to_owned()])),
        1 => (None, Some(v), None),
        2 => (Some(format!("name{}", id)), None, Some(vec![])),
        3 => (None, Some(BTreeMap::new()), Some(vec![format!("tag{}", id), format!("tag{}", id), "a b".to_owned()])),
        4 => (None, None, Some(vec![format!("tag{}", id), "".to_owned(), "z".to_owned(), "a".to_owned()])),
        5 => (Some("".to_owned()), { v.insert("".to_owned(), "".to_owned()); Some(v) }, Some(vec!["".to_owned()])),
        6 => (None, None, None),
        _ => (Some(format!("name{}", id)), Some(v), None),
    }
}

fn metadata(name: &str, pool: Vec<Tokens>, msgs: Vec<String>, k: usize, same_uuid: bool) -> Family {
    let space = Space::new(pool, msgs, true);
    let n = space.pats.len() as u64;
    let bound = format!("all {}-sequences of {} patterns, each added with its own name, tags and additional values (8 variants{}), all {} messages, both matchers, plain and cloned in 3 ways", k, n, if same_uuid { ", one uuid for all" } else { "" }, space.msgs.len());
    Family::new(name, bound, n.pow(k as u32 - 1), move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let mut seq = vec![0usize; k];
        let mut x = item;
        for i in (0..k - 1).rev() {
            seq[i] = (x % n) as usize;
            x /= n;
        }
        for last in 0..n as usize {
            seq[k - 1] = last;
            let metas: Vec<Meta> = (0..k).map(|i| {
                let mut m = meta(i, seq[i] + i);
                if same_uuid {
                    m.0 = Some(format!("name{}", i));
                }
                m
            }).collect();
            for (kind, route) in KINDS.iter().flat_map(|&k| (0..real::ROUTES).map(move |r| (k, r))) {
                let show = |msg: &str| {
                    let mut s = format!("let mut m = new {:?} matcher ({})\n", kind, real::ROUTE_NAMES[route]);
                    for i in 0..k {
                        s += &format!("m.add_pattern(#{} = {}, name {:?}, values {:?}, tags {:?})\n", i, model::source(&space.pats[seq[i]]), metas[i].0, metas[i].1, metas[i].2);
                    }
                    s + &format!("m.parse({:?})\n", msg)
                };
                let m = match guard(|| real::by_route(kind, (0..k).map(|i| {
                    let (a, b, c) = metas[i].clone();
                    Pattern::new(a, real::uuid(if same_uuid { 77 } else { i }), compiled(&space.pats[seq[i]]), None, b, c)
                }).collect(), route)) {
                    Ok(m) => m,
                    Err(e) => return violation(format!("add_pattern panics: {}", e), show("")),
                };
                l.states += 1;
                for (mi, msg) in space.msgs.iter().enumerate() {
                    l.transitions += 1;
                    let r = guard(|| m.parse(msg).map(|r| {
                        let p = r.pattern();
                        let seen: Meta = (p.name().map(|s| s.to_owned()), p.values().cloned(), p.tags().map(|t| t.to_vec()));
                        (*p.uuid(), seen, real::owned_values(r.values()))
                    }));
                    let (uuid, seen, values) = match r {
                        Ok(Some(x)) => x,
                        Ok(None) => continue,
                        Err(e) => return violation(format!("parse panics: {}", e), show(msg)),
                    };
                    l.traces += 1;
                    let id = if same_uuid { (0..k).find(|i| seen.0 == metas[*i].0) } else { real::uuid_id(&uuid).filter(|i| *i < k) };
                    let id = match id {
                        Some(i) => i,
                        None => return violation(format!("the reported pattern has uuid {} and name {:?}, which no added pattern has", uuid, seen.0), show(msg)),
                    };
                    if same_uuid && uuid != real::uuid(77) {
                        return violation(format!("the reported uuid {} is none of the added ones", uuid), show(msg));
                    }
                    l.outcome(&(id, &seen, values.len()));
                    if seen != metas[id] {
                        return violation(format!("pattern #{} is reported with {:?}, it was added with {:?}", id, seen, metas[id]), show(msg));
                    }
                    if let Some(ref own) = space.table[seq[id]][mi] {
                        if let Some(bad) = values.iter().find(|v| !own.iter().any(|o| o.0 == v.0)) {
                            return violation(format!("the parsed values of pattern #{} contain {:?}, which no parser of it produced", id, bad), show(msg));
                        }
                        if let Some(bad) = values.iter().find(|v| metas[id].1.as_ref().map_or(false, |m| m.get(&v.0) == Some(&v.1))) {
                            return violation(format!("the parsed values of pattern #{} contain its additional value {:?}", id, bad), show(msg));
                        }
                    } else if let Some(other) = (0..k).find(|&o| space.table[seq[o]][mi].is_some()) {
                        return violation(format!("the metadata of pattern #{} is reported for a message that matches pattern #{} and not #{}", id, other, id), show(msg));
                    }
                }
            }
        }
        Ok(())
    })
}

/// Patterns of many tokens: their metadata stays with them.
fn metadata_long(sizes: Vec<usize>) -> Family {
    let items = sizes.len() as u64;
    Family::new("long", format!("patterns of {} numbers of tokens up to {} (literals and INT in turn, only parsers, beginning with either), each with name, values and tags, next to one a token shorter and one longer; both matchers, by every way", sizes.len(), sizes[sizes.len() - 1]), items, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let n = sizes[item as usize];
        for shape in 0..4 {
            let make = |n: usize| -> (Tokens, String) {
                let mut text = String::new();
                let t = (0..n).map(|i| match shape {
                    0 if i % 2 == 0 => { text.push('a'); lit("a") }
                    1 if i % 2 == 1 => { text.push_str(";b"); lit(";b") }
                    0 | 1 => { text.push('7'); int("x") }
                    2 => { text.push(['a', 'b', 'c'][i % 3]); set(["a", "b", "c"][i % 3], "s") }
                    _ => { text.push(['a', 'b', 'c'][i % 3]); set(["a", "b", "c"][i % 3], &format!("s{}", i)) }
                }).collect();
                (t, text)
            };
            for (kind, route) in KINDS.iter().flat_map(|&k| (0..real::ROUTES).map(move |r| (k, r))) {
                let r = guard(|| {
                    let m = real::by_route(kind, [n, n + 1, n - 1].iter().filter(|n| **n > 0).map(|&n| {
                        let (a, b, c) = meta(n % 250, n % 250);
                        Pattern::new(a, real::uuid(n), compiled(&make(n).0), None, b, c)
                    }).collect(), route);
                    for n in [n - 1, n, n + 1] {
                        if let Some(r) = m.parse(&make(n).1) {
                            let p = r.pattern();
                            let seen: Meta = (p.name().map(|s| s.to_owned()), p.values().cloned(), p.tags().map(|t| t.to_vec()));
                            let id = real::uuid_id(p.uuid());
                            if id != Some(n) || seen != meta(n % 250, n % 250) {
                                return Err(format!("the message of the pattern of {} tokens is reported with uuid of #{:?} and {:?}", n, id, seen));
                            }
                        }
                    }
                    Ok(())
                });
                l.states += 1;
                l.transitions += 3;
                l.traces += 3;
                l.outcome(&(item, shape));
                let script = || format!("{:?} matcher with patterns of {}, {} and {} tokens like {}\n", kind, n, n + 1, n - 1, model::source(&make(4).0));
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => return violation(e, script()),
                    Err(e) => return violation(format!("panic: {}", e), script()),
                }
            }
        }
        Ok(())
    })
}

/// Many patterns with metadata: every one keeps its own.
fn metadata_scale(sizes: Vec<usize>) -> Family {
    let items = sizes.len() as u64 * 3;
    Family::new("many", format!("{} sizes up to {}: literals with a common stem, nested literals, parsers with limits, each with its own metadata; every one asked", sizes.len(), sizes[sizes.len() - 1]), items, move |item, l| {
        let n = sizes[(item / 3) as usize];
        let toks = |i: usize| -> (Tokens, String) {
            match item % 3 {
                0 => (vec![lit(&format!("stem{}/", i)), int("x")], format!("stem{}/7", i)),
                1 => (vec![lit(&"ab".repeat(i + 1)[..i + 1])], "ab".repeat(i + 1)[..i + 1].to_owned()),
                _ => (vec![lit("p"), Tok::Int { name: Some("x".to_owned()), min: Some(i + 1), max: Some(i + 1) }], format!("p{}", "4".repeat(i + 1))),
            }
        };
        for (kind, route) in KINDS.iter().flat_map(|&k| (0..real::ROUTES).map(move |r| (k, r))) {
            if route == 2 && n > 64 {
                continue;
            }
            let r = guard(|| {
                // evens ascending, then odds descending, so that nodes are split and extended
                let order: Vec<usize> = (0..n).filter(|i| i % 2 == 0).chain((0..n).rev().filter(|i| i % 2 == 1)).collect();
                let m = real::by_route(kind, order.into_iter().map(|i| {
                    let (a, b, c) = meta(i, i);
                    Pattern::new(a, real::uuid(i), compiled(&toks(i).0), None, b, c)
                }).collect(), route);
                for i in 0..n {
                    let msg = toks(i).1;
                    if let Some(r) = m.parse(&msg) {
                        let p = r.pattern();
                        let seen: Meta = (p.name().map(|s| s.to_owned()), p.values().cloned(), p.tags().map(|t| t.to_vec()));
                        let id = real::uuid_id(p.uuid());
                        if id != Some(i) || seen != meta(i, i) {
                            return Err(format!("message {:?} is reported with uuid of #{:?} and {:?}, expected #{} and {:?}", msg, id, seen, i, meta(i, i)));
                        }
                    }
                }
                Ok(())
            });
            l.states += 1;
            l.transitions += n as u64;
            l.traces += n as u64;
            l.outcome(&item);
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return violation(e, format!("{:?} matcher with {} patterns like {} ({})", kind, n, model::source(&toks(n - 1).0), item % 3)),
                Err(e) => return violation(format!("panic: {}", e), format!("{:?} matcher with {} patterns like {}", kind, n, model::source(&toks(n - 1).0))),
            }
        }
        Ok(())
    })
}

/// Metadata of every size and odd texts in it, by every way into a matcher.
fn metadata_sizes(ns: Vec<usize>, counts: usize) -> Family {
    let odd = ["", " ", "a", "\n", "\t", "\u{0}", "\"", "'", "\\", "#", ": ", "- ", "é", "e\u{301}", "\u{1F600}", "\u{feff}", "null", "true", "1", "~", "a b", " a", "a ", "%{INT:x}", "{}", "[]", "&a", "*a", "!a", "|", ">", "@", "`", "\u{2028}", "\u{85}", "A", "\u{7f}"];
    let items = ns.len() as u64 * 6 + odd.len() as u64;
    let bound = format!("{} sizes up to {} of name, key, value, tag, number of additional values and of tags (up to {}), and all pairs of {} odd texts in each place, by {} ways into both matchers", ns.len(), ns[ns.len() - 1], counts, odd.len(), routes::ROUTES.len() - 1);
    Family::new("sizes", bound, items, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let mut specs: Vec<routes::Spec> = vec![];
        let plain = || routes::Spec { tokens: vec![lit("a"), int("x")], name: Some("n".to_owned()), values: None, tags: None };
        if item < ns.len() as u64 * 6 {
            let n = ns[(item / 6) as usize];
            let text = "\u{e9}x".repeat(n / 3 + 1).chars().take(n).collect::<String>();
            let mut p = plain();
            let one = |k: &str, v: &str| Some(vec![(k.to_owned(), v.to_owned())].into_iter().collect::<BTreeMap<_, _>>());
            match item % 6 {
                0 => p.name = Some(text),
                1 => p.values = one(&text, "v"),
                2 => p.values = one("k", &text),
                3 => p.tags = Some(vec![text.clone(), "t".to_owned(), text]),
                4 if n <= counts => p.values = Some((0..n).map(|i| (format!("k{}", i), format!("v{}", i))).collect()),
                5 if n <= counts => p.tags = Some((0..n).map(|i| format!("t{}", i)).collect()),
                _ => return Ok(()),
            }
            specs.push(p);
        } else {
            let a = odd[(item - ns.len() as u64 * 6) as usize];
            for b in odd.iter() {
                let mut p = plain();
                p.name = Some(format!("{}{}", a, b));
                p.values = Some(vec![(a.to_string(), b.to_string()), (format!("{}{}", b, a), a.to_string())].into_iter().collect());
                p.tags = Some(vec![a.to_string(), b.to_string(), format!("{}{}", a, b), a.to_string()]);
                specs.push(p);
            }
        }
        for p in &specs {
            for kind in KINDS.iter() {
                for route in (0..routes::ROUTES.len()).filter(|r| *r != 5) {
                    let script = || format!("{:?} matcher, {}: pattern {} with name {:?}, values {:?}, tags {:?}; message \"a1\"\n", kind, routes::ROUTES[route], model::source(&p.tokens), p.name, p.values, p.tags);
                    let m = match guard(|| routes::build_kind(*kind, &[p], route, l, &["a1".to_owned()])) {
                        Ok(Ok(m)) => m,
                        Ok(Err(_)) => continue,
                        Err(e) => return violation(format!("panic: {}", e), script()),
                    };
                    l.states += 1;
                    l.transitions += 1;
                    l.traces += 1;
                    let r = guard(|| m.parse("a1").map(|r| {
                        let p = r.pattern();
                        (p.name().map(|s| s.to_owned()), p.values().cloned(), p.tags().map(|t| t.to_vec()), real::owned_values(r.values()))
                    }));
                    match r {
                        Err(e) => return violation(format!("panic: {}", e), script()),
                        Ok(None) => {}
                        Ok(Some((name, values, tags, own))) => {
                            l.outcome(&(name.as_ref().map(|x| x.len()), values.as_ref().map(|x| x.len()), tags.as_ref().map(|x| x.len())));
                            if name != p.name || values != p.values || tags != p.tags {
                                return violation(format!("the pattern is reported with name {:?}, values {:?}, tags {:?}", name, values, tags), script());
                            }
                            if own != vec![("x".to_owned(), "1".to_owned())] {
                                return violation(format!("the parsed values are {:?}", own), script());
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    })
}

/// Patterns added again, with the same or another uuid and other metadata.
fn metadata_again(k: usize, quick: bool) -> Family {
    let toks: Vec<(Tokens, &str)> = vec![(vec![lit("a")], "a"), (vec![lit("a"), int("x")], "a1"), (vec![set("xy", "s")], "x")];
    let names = [None, Some("n"), Some("m")];
    let kv = |v: &[(&str, &str)]| v.iter().map(|x| (x.0.to_owned(), x.1.to_owned())).collect::<BTreeMap<_, _>>();
    let values = vec![None, Some(kv(&[("k", "v")])), Some(kv(&[("k", "w")])), Some(kv(&[("k", "v"), ("l", "w")]))];
    let tags: Vec<Option<Vec<String>>> = vec![None, Some(vec!["t".to_owned()]), Some(vec!["u".to_owned()]), Some(vec!["t".to_owned(), "u".to_owned()]), Some(vec![])];
    let mut pool: Vec<(usize, usize, Meta)> = vec![];
    for t in 0..toks.len() {
        for u in 0..2 {
            for (ni, n) in names.iter().enumerate() {
                for (vi, v) in values.iter().enumerate() {
                    for (gi, g) in tags.iter().enumerate() {
                        // for three and more: one difference at a time
                        if k > 2 && (ni > 0) as u32 + (vi > 0) as u32 + (gi > 0) as u32 > 1 {
                            continue;
                        }
                        pool.push((t, u, (n.map(|n| n.to_owned()), v.clone(), g.clone())));
                    }
                }
            }
        }
    }
    let _ = quick;
    let n = pool.len() as u64;
    Family::new(&format!("again-{}", k), format!("all {}-sequences of {} additions (3 token sequences x 2 uuids x names, additional values and tags that differ), both matchers, plain and cloned in 3 ways: each token sequence is reported with all data of its last addition", k, n), n.pow(k as u32 - 1), move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let mut seq = vec![0usize; k];
        let mut x = item;
        for i in (0..k - 1).rev() {
            seq[i] = (x % n) as usize;
            x /= n;
        }
        for last in 0..n as usize {
            seq[k - 1] = last;
            l.states += 1;
            for (kind, route) in KINDS.iter().flat_map(|&k| (0..real::ROUTES).map(move |r| (k, r))) {
                let r = guard(|| {
                    let m = real::by_route(kind, seq.iter().map(|&i| {
                        let (t, u, ref meta) = pool[i];
                        Pattern::new(meta.0.clone(), real::uuid(u), compiled(&toks[t].0), None, meta.1.clone(), meta.2.clone())
                    }).collect(), route);
                    for t in 0..toks.len() {
                        let exp = seq.iter().rev().find(|&&i| pool[i].0 == t).map(|&i| (real::uuid(pool[i].1), pool[i].2.clone()));
                        let got = m.parse(toks[t].1).map(|r| {
                            let p = r.pattern();
                            (p.uuid().clone(), (p.name().map(|s| s.to_owned()), p.values().cloned(), p.tags().map(|t| t.to_vec())))
                        });
                        if exp != got {
                            return Err(format!("message {:?} is reported with {:?} instead of {:?}", toks[t].1, got, exp));
                        }
                    }
                    Ok(())
                });
                l.transitions += (k + toks.len()) as u64;
                l.traces += 1;
                let script = || seq.iter().map(|&i| format!("add {} uuid #{} {:?}\n", model::source(&toks[pool[i].0].0), pool[i].1, pool[i].2)).collect::<String>();
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => return violation(e, format!("{:?} matcher\n{}", kind, script())),
                    Err(e) => return violation(format!("panic: {}", e), format!("{:?} matcher\n{}", kind, script())),
                }
            }
            l.outcome(&(seq.iter().map(|&i| pool[i].0).collect::<Vec<_>>(), seq[k - 1]));
        }
        Ok(())
    })
}

/// Patterns whose uuids a program could treat specially.
fn special_uuids() -> Family {
    let n = real::SPECIALS.len();
    let ways = ["Pattern::new", "with_uuid and set_pattern", "from_json", "clone of Pattern::new"];
    Family::new("special-uuids", format!("all ordered pairs and triples of {} special uuids (nil, all ones, one bit, every version), patterns made in {} ways, both matchers, plain and cloned in 3 ways", n, ways.len()), (n * n * ways.len()) as u64, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let item = item as usize;
        let (a, b, way) = (item % n, item / n % n, item / n / n);
        let toks = [vec![lit("a"), int("x")], vec![int("x")], vec![lit("ab")]];
        let msgs = ["a1", "7", "ab", "b"];
        let answers = [Some(0), Some(1), Some(2), None];
        let make = |id: usize, t: &Tokens| -> Pattern {
            let u = real::uuid(id);
            match way {
                0 => Pattern::new(None, u, compiled(t), None, None, None),
                1 => { let mut p = Pattern::with_uuid(u); p.set_pattern(compiled(t)); p }
                2 => Pattern::from_json(&format!("{{\"uuid\":\"{}\",\"pattern\":\"{}\"}}", real::SPECIALS[id - real::SPECIAL], model::source(t))).expect("a correct definition"),
                _ => Pattern::new(None, u, compiled(t), None, None, None).clone(),
            }
        };
        for c in 0..n {
            if a == b || b == c || a == c {
                continue;
            }
            let ids = [real::SPECIAL + a, real::SPECIAL + b, real::SPECIAL + c];
            for (kind, route) in KINDS.iter().flat_map(|&k| (0..real::ROUTES).map(move |r| (k, r))) {
                let show = || format!("{:?} matcher ({}), patterns made by {}\n{}", kind, real::ROUTE_NAMES[route], ways[way], ids.iter().zip(&toks).map(|(i, t)| format!("{} {}\n", real::uuid(*i), model::source(t))).collect::<String>());
                let m = match guard(|| real::by_route(kind, ids.iter().zip(&toks).map(|(i, t)| make(*i, t)).collect(), route)) {
                    Ok(m) => m,
                    Err(e) => return violation(format!("building panics: {}", e), show()),
                };
                l.states += 1;
                for (msg, exp) in msgs.iter().zip(&answers) {
                    l.transitions += 1;
                    l.traces += 1;
                    let got = match guard(|| m.parse(msg).map(|r| *r.pattern().uuid())) {
                        Ok(g) => g,
                        Err(e) => return violation(format!("parsing {:?} panics: {}", msg, e), show()),
                    };
                    l.outcome(&(exp, got.is_some()));
                    if let (Some(g), Some(e)) = (got, *exp) {
                        if g != real::uuid(ids[e]) {
                            return violation(format!("the pattern with uuid {} is reported with uuid {} for {:?}", real::uuid(ids[e]), g, msg), show());
                        }
                    }
                }
            }
        }
        Ok(())
    })
}

/// Fields of a pattern that hold the same text as another field, or a text derived from one.
fn coincidences(quick: bool) -> Family {
    let words: Vec<fn(&Uuid) -> Option<String>> = vec![
        |_| None,
        |_| Some(String::new()),
        |u| Some(u.hyphenated().to_string()),
        |u| Some(u.simple().to_string()),
        |u| Some(u.hyphenated().to_string().to_uppercase()),
        |_| Some("a%{INT:x}".to_owned()),
        |_| Some("x".to_owned()),
        |_| Some("a1".to_owned()),
        |_| Some("1".to_owned()),
        |_| Some("name".to_owned()),
    ];
    let n = words.len();
    let routes = real::ROUTES + 1;
    Family::new("coincidences", format!("all choices of name, key and text of a value, and tag out of {} texts (none, empty, the uuid in 3 spellings, the source of the pattern, the name and the value of its parser, the message, a word), both matchers, plain, cloned in 3 ways and defined in JSON", n), (n * n) as u64, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let u = real::uuid(0xabcdef);
        let name = words[item as usize % n](&u);
        let tag = words[item as usize / n](&u);
        let toks = vec![lit("a"), int("x")];
        for i in 0..n * n {
            let (key, text) = (words[i % n](&u), words[i / n](&u));
            if quick && key.is_none() && text.is_some() {
                continue;
            }
            let values: Option<BTreeMap<String, String>> = key.map(|k| vec![(k, text.unwrap_or("v".to_owned()))].into_iter().collect());
            let meta: Meta = (name.clone(), values, tag.clone().map(|t| vec![t, "other".to_owned()]));
            for (kind, route) in KINDS.iter().flat_map(|&k| (0..routes).map(move |r| (k, r))) {
                let make = || if route < real::ROUTES {
                    Pattern::new(meta.0.clone(), u, compiled(&toks), None, meta.1.clone(), meta.2.clone())
                } else {
                    let mut fields = vec![("uuid", s(&u.hyphenated().to_string())), ("pattern", s("a%{INT:x}"))];
                    if let Some(ref n) = meta.0 {
                        fields.push(("name", s(n)));
                    }
                    if let Some(ref v) = meta.1 {
                        fields.push(("values", V::Obj(v.iter().map(|(k, v)| (k.clone(), s(v))).collect())));
                    }
                    if let Some(ref t) = meta.2 {
                        fields.push(("tags", V::Arr(t.iter().map(|t| s(t)).collect())));
                    }
                    Pattern::from_json(&obj(&fields).json()).expect("a correct definition")
                };
                let show = || format!("{:?} matcher ({}), pattern a%{{INT:x}}, uuid {}, name {:?}, values {:?}, tags {:?}\nm.parse(\"a1\")\n", kind, real::ROUTE_NAMES.get(route).unwrap_or(&"defined in JSON"), u, meta.0, meta.1, meta.2);
                let r = guard(|| {
                    let m = real::by_route(kind, vec![make()], route % real::ROUTES);
                    m.parse("a1").map(|r| {
                        let p = r.pattern();
                        let seen: Meta = (p.name().map(|s| s.to_owned()), p.values().cloned(), p.tags().map(|t| t.to_vec()));
                        (*p.uuid(), seen)
                    })
                });
                l.states += 1;
                l.transitions += 1;
                l.traces += 1;
                l.outcome(&(item, i));
                match r {
                    Err(e) => return violation(format!("panics: {}", e), show()),
                    Ok(Some((gu, gm))) => if gu != u || gm != meta {
                        return violation(format!("the pattern is reported with uuid {}, name {:?}, values {:?}, tags {:?}", gu, gm.0, gm.1, gm.2), show());
                    },
                    // whether it matches is not at issue here
                    Ok(None) => {}
                }
            }
        }
        Ok(())
    })
}

fn c22(tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let mut f = vec![];
    let abc = ['a', 'b', '1'];
    f.push(metadata("pairs", shaped(&["a", "b", "ab", "1"], &base_parsers(), 3), all_strings(&abc, 3), 2, false));
    f.push(metadata("triples", shaped(&["a", "ab", "b"], &[int("x"), set("ab", "s"), greedy("g")], 2), all_strings(&abc, 3), 3, false));
    f.push(metadata("quads", shaped(&["a", "ab"], &[int("x"), greedy("g")], 2), all_strings(&abc, 3), 4, false));
    f.push(metadata("literal-triples", shaped(&["a", "ab", "abc", "abd", "ac", "b", "é", "è", "éa"], &[], 1), all_strings(&['a', 'b', 'c', 'd', 'é', 'è'], 3), 3, false));
    f.push(metadata("one-uuid-triples", shaped(&["a", "ab"], &[int("x"), greedy("g")], 2), all_strings(&abc, 3), 3, true));
    if !quick {
        f.push(metadata("literal-quints", shaped(&["a", "ab", "abc", "abd", "ac", "b"], &[], 1), all_strings(&['a', 'b', 'c', 'd'], 4), 5, false));
        f.push(metadata("triples-3", shaped(&["a", "ab"], &[int("x"), greedy("g")], 3), all_strings(&abc, 4), 3, false));
    }
    f.push(if quick { metadata_sizes(ladder(70, 70_000), 1100) } else { metadata_sizes(ladder(300, 1_100_000), 11_000) });
    f.push(special_uuids());
    f.push(coincidences(quick));
    f.push(metadata_again(2, quick));
    f.push(metadata_again(3, quick));
    f.push(metadata_long(if quick { (1..=70).chain([127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 513]).collect() } else { (1..=530).chain([1000, 1024, 1025]).collect() }));
    f.push(metadata_scale(if quick { (1..=70).chain([127, 128, 129, 200, 255, 256, 257, 300]).collect() } else { (1..=400).collect() }));
    f
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Behave {
    /// leading digits, at least one
    Digits,
    /// leading a's, possibly none
    As,
    /// exactly one character
    One,
    Never,
    Rest,
}

type Log = Rc<RefCell<Vec<(usize, usize, usize)>>>;

/// A parser type of the user's own; records every attempt (instance, address and length of the text).
#[derive(Debug)]
struct Probe {
    what: Behave,
    name: Option<String>,
    instance: usize,
    log: Log,
}

impl ObjectSafeHash for Probe {
    fn hash_os(&self) -> u64 {
        // names that start with # stand for hash values a program could treat specially
        match self.name.as_ref().map_or("", |n| &n[..]) {
            "#zero" => 0,
            "#one" => 1,
            "#max" => u64::max_value(),
            "#high" => 1 << 63,
            "#32" => 1 << 32,
            "#u32" => u32::max_value() as u64,
            _ => hash(&("probe", self.what, &self.name)),
        }
    }
}

fn behave(what: Behave, text: &str) -> Option<usize> {
    match what {
        Behave::Digits => Some(text.len() - text.trim_start_matches(|c: char| c.is_ascii_digit()).len()).filter(|n| *n > 0),
        Behave::As => Some(text.len() - text.trim_start_matches('a').len()),
        Behave::One => text.chars().next().map(|c| c.len_utf8()),
        Behave::Never => None,
        Behave::Rest => Some(text.len()),
    }
}

impl Parser for Probe {
    fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<ParseResult<'a, 'b>> {
        self.log.borrow_mut().push((self.instance, value.as_ptr() as usize, value.len()));
        behave(self.what, value).map(|n| ParseResult::new(self, &value[..n]))
    }
    fn name(&self) -> Option<&str> {
        self.name.as_ref().map(|s| &s[..])
    }
    fn set_name(&mut self, name: Option<String>) {
        self.name = name;
    }
    fn boxed_clone(&self) -> Box<dyn Parser> {
        Box::new(Probe { what: self.what, name: self.name.clone(), instance: self.instance, log: self.log.clone() })
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum PTok {
    L(&'static str),
    P(Behave, &'static str),
}

/// What the pattern of probes does on its own.
fn ptokens_match(p: &[PTok], msg: &str) -> Option<Vec<(String, String)>> {
    let mut rest = msg;
    let mut vals: Vec<(String, String)> = vec![];
    for t in p {
        let n = match *t {
            PTok::L(l) => if rest.starts_with(l) { l.len() } else { return None },
            PTok::P(b, name) => {
                let n = match behave(b, rest) { Some(n) => n, None => return None };
                if !vals.iter().any(|v| v.0 == name) {
                    vals.push((name.to_owned(), rest[..n].to_owned()));
                }
                n
            }
        };
        rest = &rest[n..];
    }
    vals.sort();
    if rest.is_empty() { Some(vals) } else { None }
}

fn probe_run(pats: &[&Vec<PTok>], msgs: &[String], l: &mut Local) -> Outcome {
    for &kind in &KINDS {
        let log: Log = Rc::new(RefCell::new(vec![]));
        let show = |msg: &str| {
            let mut s = format!("let mut m = new {:?} matcher\n", kind);
            for (i, p) in pats.iter().enumerate() {
                s += &format!("m.add_pattern(#{} = {:?})   // P(behaviour, name): a recording parser\n", i, p);
            }
            s + &format!("m.parse({:?})\n", msg)
        };
        let mut instances = 0;
        // equal beginnings share their places
        let mut places: Vec<String> = vec![String::new()];
        let m = match guard(|| {
            let mut m = new_matcher(kind);
            for (i, p) in pats.iter().enumerate() {
                let mut place = String::new();
                let cp: CompiledPattern = p.iter().map(|t| match *t {
                    PTok::L(s) => { place.push_str(s); TokenType::Literal(s.to_owned()) }
                    PTok::P(b, name) => {
                        instances += 1;
                        place.push_str(&format!("<{:?} {}>", b, name));
                        places.push(place.clone());
                        TokenType::Parser(Box::new(Probe { what: b, name: Some(name.to_owned()), instance: instances, log: log.clone() }))
                    }
                }).collect();
                m.add_pattern(Pattern::new(None, real::uuid(i), cp, None, None, None));
            }
            m
        }) {
            Ok(m) => m,
            Err(e) => return violation(format!("add_pattern panics: {}", e), show("")),
        };
        l.states += 1;
        for msg in msgs {
            log.borrow_mut().clear();
            let r = match guard(|| ask(&*m, msg)) {
                Ok(r) => r,
                Err(e) => return violation(format!("parse panics: {}", e), show(msg)),
            };
            l.transitions += 1;
            l.traces += 1;
            let calls = log.borrow();
            l.outcome(&(calls.len(), r.is_some()));
            let (lo, hi) = (msg.as_ptr() as usize, msg.as_ptr() as usize + msg.len());
            let mut seen = std::collections::HashSet::new();
            let mut tried = std::collections::HashSet::new();
            for &(inst, ptr, len) in calls.iter() {
                if !seen.insert(inst) {
                    return violation(format!("parser instance {} is tried {} times for one message", inst, calls.iter().filter(|c| c.0 == inst).count()), show(msg));
                }
                if !tried.insert(&places[inst][..]) {
                    return violation(format!("the parser at {:?} is tried more than once for one message", places[inst]), show(msg));
                }
                // an empty text may be any empty slice
                if len > 0 && (ptr < lo || ptr + len != hi) || len > msg.len() {
                    return violation(format!("parser instance {} is given a text that is not a suffix of the message", inst), show(msg));
                }
            }
            // user-supplied types are treated as the built-in ones: genuine answers, none missed
            let fits: Vec<Option<Vec<(String, String)>>> = pats.iter().map(|p| ptokens_match(p, msg)).collect();
            match r {
                None => if fits.iter().any(|f| f.is_some()) {
                    return violation("no match is reported although a pattern made of user-supplied parsers consumes the message".to_owned(), show(msg));
                },
                Some(s) => if s.id.map_or(true, |i| fits.get(i).map_or(true, |f| f.as_ref() != Some(&s.values))) {
                    return violation(format!("reported #{:?} {:?}, which is not what that pattern of user-supplied parsers gives", s.id, s.values), show(msg));
                },
            }
        }
    }
    Ok(())
}

fn probes(name: &str, pool: Vec<Vec<PTok>>, k: usize, msgs: Vec<String>, trace: bool) -> Family {
    let n = pool.len() as u64;
    let bound = format!("all {}-sequences of {} patterns made of recording parsers x all {} messages, both matchers, logging {}", k, n, msgs.len(), if trace { "at trace level" } else { "off" });
    Family::new(name, bound, n.pow(k as u32 - 1), move |item, l| {
        logcap::set_level(if trace { LogLevelFilter::Trace } else { LogLevelFilter::Off });
        let mut seq = vec![0usize; k];
        let mut x = item;
        for i in (0..k - 1).rev() {
            seq[i] = (x % n) as usize;
            x /= n;
        }
        for last in 0..n as usize {
            seq[k - 1] = last;
            let pats: Vec<&Vec<PTok>> = seq.iter().map(|&p| &pool[p]).collect();
            probe_run(&pats, &msgs, l)?;
        }
        Ok(())
    })
}

fn probe_pool(max: usize, toks: &[PTok]) -> Vec<Vec<PTok>> {
    let mut out: Vec<Vec<PTok>> = vec![];
    let mut level: Vec<Vec<PTok>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for p in &level {
            for t in toks {
                if let (PTok::L(_), Some(&PTok::L(_))) = (t.clone(), p.last()) {
                    continue;
                }
                let mut q = p.clone();
                q.push(t.clone());
                next.push(q);
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}

/// The shape that makes naive backtracking exponential: many ways to split a run.
fn probe_ladders(max: usize, trace: bool) -> Family {
    Family::new(if trace { "ladders-trace" } else { "ladders" }, format!("chains of up to {} recording parsers, prefixes of the chain stored too, messages that fail at the last token", max), max as u64, move |item, l| {
        logcap::set_level(if trace { LogLevelFilter::Trace } else { LogLevelFilter::Off });
        let n = item as usize + 1;
        let names: Vec<&'static str> = vec!["p", "q", "r", "s"];
        let chain: Vec<PTok> = (0..n).map(|i| if i % 2 == 0 { PTok::P(Behave::As, names[i % 4]) } else { PTok::P(Behave::One, names[i % 4]) }).chain(Some(PTok::L("!"))).collect();
        let alt: Vec<PTok> = (0..n).map(|i| PTok::P(Behave::One, names[(i + 1) % 4])).chain(Some(PTok::L("?"))).collect();
        let mut pats = vec![chain.clone(), alt.clone()];
        for k in 1..n {
            let mut p: Vec<PTok> = chain[..k].to_vec();
            p.push(PTok::P(Behave::Never, "z"));
            pats.push(p);
            let mut p: Vec<PTok> = alt[..k].to_vec();
            p.push(PTok::P(Behave::Rest, "y"));
            p.push(PTok::L("#"));
            pats.push(p);
        }
        let refs: Vec<&Vec<PTok>> = pats.iter().collect();
        let msgs: Vec<String> = vec!["a".repeat(n), "ab".repeat(n), format!("{}!", "b".repeat(n / 2)), format!("{}?", "a".repeat(n)), "b".repeat(2 * n + 3), String::new()];
        probe_run(&refs, &msgs, l)
    })
}

/// Long messages: the bound does not depend on the length.
fn probe_lengths(lens: Vec<usize>) -> Family {
    use Behave::*;
    let t = [PTok::L("a"), PTok::P(Digits, "d"), PTok::P(As, "a"), PTok::P(Never, "n"), PTok::P(Rest, "r")];
    let pool = probe_pool(2, &t);
    let n = pool.len() as u64;
    let bound = format!("all ordered pairs of {} patterns made of recording parsers x messages of {} lengths up to {} bytes (matching, failing at the start, failing at the end), both matchers", n, lens.len(), lens[lens.len() - 1]);
    Family::new("lengths", bound, n * n, move |item, l| {
        logcap::set_level(LogLevelFilter::Off);
        let pats = [&pool[(item / n) as usize], &pool[(item % n) as usize]];
        for &k in &lens {
            let msgs = vec!["a".repeat(k), "1".repeat(k), format!("a{}", "1".repeat(k)), format!("{}b", "a".repeat(k)), format!("b{}", "a".repeat(k)), format!("a{}b", "1".repeat(k)), format!("b{}", "1".repeat(k)), "é".repeat(k / 2)];
            probe_run(&pats, &msgs, l)?;
        }
        Ok(())
    })
}

fn c23(tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    use Behave::*;
    let t1 = [PTok::L("a"), PTok::L("ab"), PTok::L("1"), PTok::P(Digits, "d"), PTok::P(As, "a"), PTok::P(One, "o"), PTok::P(Never, "n"), PTok::P(Rest, "r")];
    let t2 = [PTok::L("a"), PTok::L("ab"), PTok::P(As, "a"), PTok::P(One, "o"), PTok::P(Rest, "r")];
    let t3 = [PTok::L("a"), PTok::P(As, "p"), PTok::P(As, "q"), PTok::P(One, "p")];
    let t4 = [PTok::L("a"), PTok::P(Digits, "#zero"), PTok::P(As, "#one"), PTok::P(One, "#max"), PTok::P(Rest, "#high")];
    let t5 = [PTok::L("a"), PTok::P(As, "#zero"), PTok::P(Digits, "#max"), PTok::P(One, "#32"), PTok::P(Never, "#u32"), PTok::P(Rest, "#one")];
    let abc = ['a', 'b', '1'];
    let mut f = vec![
        probes("pairs", probe_pool(3, &t1), 2, all_strings(&abc, 3), false),
        probes("triples", probe_pool(2, &t2), 3, all_strings(&abc, 4), false),
        probes("quads", probe_pool(2, &t3), 4, all_strings(&['a', 'b'], 3), false),
        probes("pairs-trace", probe_pool(2, &t1), 2, all_strings(&abc, 3), true),
        probes("triples-trace", probe_pool(2, &t3), 3, all_strings(&['a', 'b'], 3), true),
        probes("hashes", probe_pool(2, &t4), 3, all_strings(&['a', '1'], 3), false),
        probes("hashes-pairs", probe_pool(3, &t5), 2, all_strings(&['a', '1'], 4), false),
        probe_lengths(if quick { ladder(70, 70_000) } else { ladder(300, 1_100_000) }),
        probe_ladders(if quick { 40 } else { 120 }, false),
        probe_ladders(if quick { 40 } else { 120 }, true),
    ];
    if !quick {
        f.push(probes("triples-3", probe_pool(3, &t3), 3, all_strings(&['a', 'b'], 4), false));
        f.push(probes("quads-2", probe_pool(2, &t2), 4, all_strings(&['a', 'b'], 3), false));
    }
    f
}

fn build(p: &str, tier: Tier) -> Option<Check> {
    let (families, rule) = match p {
        "C05" => (c05(tier), "two executions differ when the answer (no match, winning pattern, values) differs"),
        "C11" => (c11(tier), "two executions differ when the answer or the list of patterns behind it differs"),
        "C22" => (c22(tier), "two executions differ when the reported pattern, its metadata or the number of values differ"),
        "C23" => (c23(tier), "two executions differ when the number of parser attempts or the fact of a match differ"),
        _ => return None,
    };
    Some(Check {
        property: p.to_owned(),
        families,
        rule: rule.to_owned(),
        assumptions: vec!["patterns, alphabets, message lengths and history lengths are bounded as listed per family".to_owned()],
    })
}

fn main() {
    engine::main(build)
}
