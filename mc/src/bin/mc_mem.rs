//! C26: using the library accumulates neither memory nor open files. The allocator of this process counts the
//! bytes every thread holds; the library and std are unchanged.
use actiondb::grammar::parser as text;
use actiondb::matcher::pattern::source::BuildResult;
use actiondb::matcher::pattern::testmessage::TestMessage;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::{BuildError, FromPatternSource, Matcher, MatcherFactory, Pattern, PatternLoader};
use log::LogLevelFilter;
use mc::engine::{self, guard, violation, Check, Family, Local, Outcome, Tier};
use mc::logcap;
use mc::model::{self, greedy, int, link_greedy, lit, set, Tokens};
use mc::real::{self, Kind, KINDS};
use mc::space::int_min;
use mc::strings::all_sequences;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering};
use std::collections::BTreeMap;

thread_local!(static HELD: Cell<isize> = const { Cell::new(0) });

/// What all threads together hold, counted only where that is asked for.
static ALL: AtomicBool = AtomicBool::new(false);
static TOTAL: AtomicIsize = AtomicIsize::new(0);

struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = HELD.try_with(|h| h.set(h.get() + l.size() as isize));
        if ALL.load(Ordering::Relaxed) {
            TOTAL.fetch_add(l.size() as isize, Ordering::Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = HELD.try_with(|h| h.set(h.get() - l.size() as isize));
        if ALL.load(Ordering::Relaxed) {
            TOTAL.fetch_sub(l.size() as isize, Ordering::Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = HELD.try_with(|h| h.set(h.get() + n as isize - l.size() as isize));
        if ALL.load(Ordering::Relaxed) {
            TOTAL.fetch_add(n as isize - l.size() as isize, Ordering::Relaxed);
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

fn held() -> isize {
    HELD.with(|h| h.get())
}

/// What may stay: buffers that are made once.
const SLACK: isize = 4096;

/// Runs `f` for `warm` rounds, then for `rounds` rounds; None, or by how much the held memory grew in the latter.
fn grows<F: FnMut(usize)>(warm: usize, rounds: usize, mut f: F) -> Option<isize> {
    for i in 0..warm {
        f(i);
    }
    let before = held();
    for i in warm..warm + rounds {
        f(i);
    }
    let grown = held() - before;
    if grown > SLACK { Some(grown) } else { None }
}

fn pool() -> Vec<Tokens> {
    vec![vec![lit("a")], vec![lit("ab")], vec![lit("a"), int("n")], vec![int("n")], vec![set("ab1", "s")], vec![set("ab", ""), lit("1")], vec![greedy("g")], vec![lit("a"), greedy("g"), lit("b")], vec![lit("é"), int("n"), lit("è")], vec![int_min("n", Some(2), Some(3)), lit("é")]]
        .into_iter().map(link_greedy).collect()
}

/// Message number i, all different; written into the buffer.
fn message(buf: &mut String, mut i: usize) {
    buf.clear();
    let letters = ['a', 'b', '1', 'é', 'è', '2', ' '];
    loop {
        buf.push(letters[i % letters.len()]);
        i /= letters.len();
        if i == 0 {
            break;
        }
        i -= 1;
    }
}

fn pattern(id: usize, t: &Tokens) -> Pattern {
    let mut m = BTreeMap::new();
    m.insert("key".to_owned(), "value".to_owned());
    Pattern::new(Some("name".to_owned()), real::uuid(id), real::compiled(t), None, Some(m), Some(vec!["tag".to_owned()]))
}

fn show(kind: Kind, seq: &[usize], pool: &[Tokens], more: &str) -> String {
    format!("{:?} matcher with {}\n{}\n", kind, seq.iter().map(|&i| model::source(&pool[i])).collect::<Vec<_>>().join("  "), more)
}

fn verdict(r: Result<Option<isize>, String>, what: &str, script: &dyn Fn() -> String, l: &mut Local) -> Outcome {
    l.traces += 1;
    match r {
        // panics are the business of other properties
        Err(_) => Ok(()),
        Ok(None) => { l.outcome(&what); Ok(()) }
        Ok(Some(n)) => violation(format!("{}: {} bytes more are held afterwards", what, n), script()),
    }
}

fn sequences(k: usize, parses: usize, adds: usize, trace: bool) -> Family {
    let pool = pool();
    let seqs = all_sequences(pool.len(), k);
    let bound = format!("all {} sequences of up to {} patterns out of {}, both matchers: {} different messages parsed, every pattern added {} times more, the matcher cloned, used and dropped {} times", seqs.len(), k, pool.len(), parses, adds, adds);
    Family::new(if trace { "sequences-trace" } else { "sequences" }, format!("{}{}", bound, if trace { ", every record of the log taken" } else { "" }), seqs.len() as u64, move |item, l| {
        logcap::set_level(if trace { LogLevelFilter::Trace } else { LogLevelFilter::Error });
        let seq = &seqs[item as usize];
        for &kind in &KINDS {
            let mut m = match guard(|| {
                let mut m = real::new_matcher(kind);
                for (i, &k) in seq.iter().enumerate() {
                    m.add_pattern(pattern(i, &pool[k]));
                }
                m
            }) { Ok(m) => m, Err(_) => continue };
            l.states += 1;
            l.transitions += (parses + 2 * adds) as u64;
            let mut buf = String::with_capacity(64);
            let r = guard(|| grows(200, parses, |i| { message(&mut buf, i); let _ = m.parse(&buf).map(|r| r.values().len()); }));
            verdict(r, "parsing messages", &|| show(kind, seq, &pool, &format!("parse of {} different messages", parses)), l)?;
            let r = guard(|| grows(20, parses / 4, |i| { message(&mut buf, i % 2000); let _ = m.parse(&buf).map(|r| r.values().len()); }));
            verdict(r, "parsing messages again", &|| show(kind, seq, &pool, &format!("parse of {} messages again", parses / 4)), l)?;
            let r = guard(|| grows(20, adds, |i| { let c = m.boxed_clone(); message(&mut buf, i); let _ = c.parse(&buf).is_some(); }));
            verdict(r, "cloning and dropping", &|| show(kind, seq, &pool, &format!("{} clones, dropped", adds)), l)?;
            let r = guard(|| grows(20, adds, |i| for (n, &k) in seq.iter().enumerate() { m.add_pattern(pattern(n + 100 * (i % 2), &pool[k])); }));
            verdict(r, "adding the same patterns again", &|| show(kind, seq, &pool, &format!("every pattern added {} times more", adds)), l)?;
            drop(m);
            let r = guard(|| grows(20, adds, |_| {
                let mut m = real::new_matcher(kind);
                for (i, &k) in seq.iter().enumerate() {
                    m.add_pattern(pattern(i, &pool[k]));
                }
            }));
            verdict(r, "building and dropping", &|| show(kind, seq, &pool, &format!("built and dropped {} times", adds)), l)?;
        }
        Ok(())
    })
}

fn texts(rounds: usize) -> Family {
    let texts: Vec<String> = ["a", "%{INT:n}", "a%{SET(\"ab\",min_len=1, max_len=2):s}é%{GREEDY:g};", "%{", "%{XYZ}", "%{INT", "a%{INT:n}%{SET(\"", "", "%{INT(min_len=99999999999999999999)}", "\\%\\{", "%{GREEDY}%{GREEDY:x}x"].iter().map(|t| t.to_string()).collect();
    Family::new("texts", format!("{} pattern texts, correct and malformed, compiled {} times", texts.len(), rounds), texts.len() as u64, move |item, l| {
        l.states += 1;
        l.transitions += rounds as u64;
        let t = &texts[item as usize];
        let r = guard(|| grows(20, rounds, |_| { let _ = text::pattern(t).map_err(|e| e.to_string()).map(|c| c.len()); }));
        verdict(r, "compiling a pattern text", &|| format!("{:?} compiled {} times\n", t, rounds), l)
    })
}

/// Contents so large that a copy of a single one of them would be noticed.
fn large(rounds: usize) -> Family {
    let big = "abcdefghij ".repeat(3000);
    let u = "9a49c47d-29e9-4072-be84-3b76c6814743";
    let good = |field: &str, value: &str| format!("{{\"uuid\":\"{}\",\"pattern\":\"a%{{INT:n}}\",\"{}\":{}}}", u, field, value);
    let mut docs: Vec<(String, String)> = vec![];
    for (what, tail) in [("correct", ""), ("with an unknown item", "%{XYZ}"), ("with an unfinished item", "%{INT:"), ("with a bad limit", "%{INT(min_len=x)}")] {
        docs.push((format!("pattern of 33 KB {}", what), format!("{{\"uuid\":\"{}\",\"pattern\":\"{}{}\"}}", u, big, tail)));
        docs.push((format!("pattern with a name of 30 KB {}", what), format!("{{\"uuid\":\"{}\",\"pattern\":\"%{{INT:{}}}{}\"}}", u, "abcdefghij".repeat(3000), tail)));
        docs.push((format!("pattern with a set of 33 KB {}", what), format!("{{\"uuid\":\"{}\",\"pattern\":\"%{{SET(\\\"{}\\\"):s}}{}\"}}", u, big, tail)));
        docs.push((format!("pattern with an end string of 33 KB {}", what), format!("{{\"uuid\":\"{}\",\"pattern\":\"%{{GREEDY:s}}{}{}\"}}", u, big, tail)));
    }
    docs.push(("name".to_owned(), good("name", &format!("\"{}\"", big))));
    docs.push(("value".to_owned(), good("values", &format!("{{\"k\":\"{}\"}}", big))));
    docs.push(("key".to_owned(), good("values", &format!("{{\"{}\":\"v\"}}", big))));
    docs.push(("tag".to_owned(), good("tags", &format!("[\"{}\"]", big))));
    docs.push(("message".to_owned(), good("test_messages", &format!("[{{\"message\":\"{}\"}}]", big))));
    docs.push(("message that passes".to_owned(), format!("{{\"uuid\":\"{}\",\"pattern\":\"%{{GREEDY:g}}\",\"test_messages\":[{{\"message\":\"{}\"}}]}}", u, big)));
    docs.push(("expected value".to_owned(), good("test_messages", &format!("[{{\"message\":\"a1\",\"values\":{{\"n\":\"{}\"}}}}]", big))));
    docs.push(("expected key".to_owned(), good("test_messages", &format!("[{{\"message\":\"a1\",\"values\":{{\"{}\":\"1\"}}}}]", big))));
    docs.push(("expected tag".to_owned(), good("test_messages", &format!("[{{\"message\":\"a1\",\"tags\":[\"{}\"]}}]", big))));
    docs.push(("unknown field".to_owned(), good("name", &format!("\"{}\",\"field\":\"x\"", big))));
    docs.push(("unknown field name".to_owned(), good(&big, "\"x\"")));
    docs.push(("uuid".to_owned(), format!("{{\"uuid\":\"{}\",\"pattern\":\"a\"}}", big)));
    docs.push(("field of the wrong type".to_owned(), good("values", &format!("[\"{}\"]", big))));
    docs.push(("large values, missing uuid".to_owned(), format!("{{\"pattern\":\"a\",\"name\":\"{}\",\"values\":{{\"k\":\"{}\"}},\"tags\":[\"{}\"]}}", big, big, big)));
    docs.push(("large values, missing pattern".to_owned(), format!("{{\"uuid\":\"{}\",\"name\":\"{}\",\"values\":{{\"k\":\"{}\"}},\"test_messages\":[{{\"message\":\"{}\"}}]}}", u, big, big, big)));
    docs.push(("test message without a message".to_owned(), good("test_messages", &format!("[{{\"values\":{{\"k\":\"{}\"}},\"tags\":[\"{}\"]}}]", big, big))));
    let n = docs.len();
    Family::new("large", format!("{} definitions with a part of 33 KB (each field, each way to be defective), read as JSON, as .json and .yaml file, cut in the middle, not UTF-8 at its end, strictly and leniently, both matchers, {} times", n, rounds), n as u64, move |item, l| {
        let (ref what, ref doc) = docs[item as usize];
        let file = format!("{{\"patterns\":[{}]}}", doc);
        let mut notutf = file.clone().into_bytes();
        let at = notutf.len() - 4;
        notutf[at] = 0xff;
        let contents: Vec<(&str, Vec<u8>)> = vec![("json", file.clone().into_bytes()), ("yaml", file.clone().into_bytes()), ("json", file.as_bytes()[..file.len() - 5].to_vec()), ("yaml", file.as_bytes()[..file.len() - 5].to_vec()), ("json", notutf.clone()), ("yaml", notutf), ("txt", file.clone().into_bytes())];
        for entry in 0..2 + contents.len() * 5 {
            l.states += 1;
            l.transitions += rounds as u64;
            let c = if entry < 2 { 0 } else { (entry - 2) / 5 };
            let p = engine::scratch().join(format!("large{}-{}.{}", item, c, contents[c].0));
            if entry >= 2 && (entry - 2) % 5 == 0 {
                std::fs::write(&p, &contents[c].1).expect("write scratch file");
            }
            let path = p.to_str().unwrap();
            let call = || {
                match entry {
                    0 => { let _ = Pattern::from_json(doc).map_err(|e| e.to_string()); }
                    1 => { let _ = Pattern::from_json(&doc[..doc.len() - 1]).map_err(|e| e.to_string()); }
                    _ => match (entry - 2) % 5 {
                        0 => { let _ = PatternLoader::load_file(path).map_err(|e| e.to_string()); }
                        1 => { let _ = PatternLoader::from_file::<TrieMatcherFactory>(path).map(|m| m.parse("a1").is_some()).map_err(|e| e.to_string()); }
                        2 => { let _ = PatternLoader::from_file::<SuffixArrayMatcherFactory>(path).map(|m| m.parse("a1").is_some()).map_err(|e| e.to_string()); }
                        3 => { let _ = PatternLoader::from_file_ignore_errors::<TrieMatcherFactory>(path).map(|m| m.parse("a1").is_some()).map_err(|e| e.to_string()); }
                        _ => { let _ = PatternLoader::from_file_ignore_errors::<SuffixArrayMatcherFactory>(path).map(|m| m.parse("a1").is_some()).map_err(|e| e.to_string()); }
                    },
                }
                logcap::take_errors();
            };
            let r = guard(|| grows(2, rounds, |_| call()));
            verdict(r, "reading a large definition", &|| format!("definition with a large part ({}), .{} file number {}, entry point {}, {} times\n", what, contents[c].0, c, entry, rounds), l)?;
            if entry >= 2 && (entry - 2) % 5 == 4 {
                let _ = std::fs::remove_file(&p);
            }
        }
        Ok(())
    })
}

/// Matchers with parts so large that a single copy left behind would be noticed.
fn large_patterns(rounds: usize) -> Family {
    let big = "abcdefghij ".repeat(1500);
    let b = &big[..];
    let shapes: Vec<(&str, Vec<Tokens>, Vec<String>)> = vec![
        ("literal", vec![vec![lit(b)], vec![lit(&big[..big.len() - 1])]], vec![big.clone(), format!("{}x", b)]),
        ("literals that split", vec![vec![lit(b), int("n")], vec![lit(&format!("{}x", b))], vec![lit(&format!("{}y{}", &big[..9000], b))]], vec![format!("{}1", b), format!("{}y", &big[..9000])]),
        ("literal behind a parser", vec![vec![int("n"), lit(b)]], vec![format!("1{}", b), "1".to_owned()]),
        ("end string", vec![vec![greedy("g"), lit(b)], vec![lit("x"), greedy("g"), lit(b), int("n")]], vec![format!("1{}", b), format!("x{}{}7", b, b), "x".to_owned()]),
        ("name of INT", vec![vec![int(b)], vec![lit("a"), int(b)]], vec!["1".to_owned(), "a2".to_owned(), "b".to_owned()]),
        ("name of SET", vec![vec![set("ab", b)]], vec!["ab".to_owned(), "1".to_owned()]),
        ("name of GREEDY", vec![vec![greedy(b)], vec![lit("a"), greedy(b), lit("b")]], vec!["ab".to_owned(), "1".to_owned(), big.clone()]),
        ("characters of a set", vec![vec![set(&(0x100..0x2000u32).filter_map(std::char::from_u32).collect::<String>(), "s")]], vec!["Ā".to_owned(), "a".to_owned(), "āā".to_owned()]),
        ("value", vec![vec![set("abcdefghij ", "s")], vec![lit("x"), greedy("g")]], vec![big.clone(), format!("x{}", b), format!("{}!", b)]),
    ];
    let metas = ["none", "name", "value", "key", "tag", "test message", "expected value"];
    let pattern = move |id: usize, t: &Tokens, meta: usize, big: &str| -> Pattern {
        let mut v = BTreeMap::new();
        let mut tests = None;
        match meta {
            2 => { v.insert("k".to_owned(), big.to_owned()); }
            3 => { v.insert(big.to_owned(), "v".to_owned()); }
            5 => tests = Some(vec![TestMessage::new(big.to_owned(), BTreeMap::new(), Some(vec!["t".to_owned()]))]),
            6 => { let mut e = BTreeMap::new(); e.insert("k".to_owned(), big.to_owned()); tests = Some(vec![TestMessage::new("a".to_owned(), e, None)]) }
            _ => {}
        }
        Pattern::new(if meta == 1 { Some(big.to_owned()) } else { None }, real::uuid(id), real::compiled(&link_greedy(t.clone())), tests, Some(v), if meta == 4 { Some(vec![big.to_owned()]) } else { None })
    };
    let n = shapes.len();
    let bound = format!("{} shapes of patterns with a part of 16 KB ({}), {} kinds of large metadata: parsed, cloned, patterns cloned, added again, built, built from a source, {} times each, both matchers", n, shapes.iter().map(|s| s.0).collect::<Vec<_>>().join(", "), metas.len(), rounds);
    Family::new("large-patterns", bound, (n * metas.len()) as u64, move |item, l| {
        let (what, ref toks, ref msgs) = shapes[item as usize % n];
        let meta = item as usize / n;
        let make = |i: usize| pattern(i, &toks[i % toks.len()], meta, &big);
        fn sourced<F: MatcherFactory>(items: Vec<BuildResult>, lenient: bool) {
            let mut it = items.into_iter();
            if lenient {
                let _ = <F::Matcher as FromPatternSource>::from_source_ignore_errors::<F>(&mut it);
            } else {
                let _ = <F::Matcher as FromPatternSource>::from_source::<F>(&mut it).map_err(|e| e.to_string());
            }
        }
        for &kind in &KINDS {
            let build = || {
                let mut m = real::new_matcher(kind);
                for i in 0..toks.len() {
                    m.add_pattern(make(i));
                }
                m
            };
            let mut m = match guard(&build) { Ok(m) => m, Err(_) => continue };
            let other = match guard(|| make(0)) { Ok(p) => p, Err(_) => continue };
            let calls = ["parsing messages", "cloning and dropping", "cloning, adding to the clone and dropping", "cloning a pattern", "building and dropping", "building from a source", "building leniently from a source", "adding the same patterns again"];
            for (call, name) in calls.iter().enumerate() {
                l.states += 1;
                l.transitions += rounds as u64;
                let r = guard(|| grows(3, rounds, |_| match call {
                    0 => for x in msgs { let _ = m.parse(x).map(|r| r.values().len()); },
                    1 => { let c = m.boxed_clone(); for x in msgs { let _ = c.boxed_clone().parse(x).map(|r| r.values().len()); } }
                    2 => { let mut c = m.boxed_clone(); for i in 0..toks.len() { c.add_pattern(make(i + 10)); } c.add_pattern(other.clone()); let _ = c.parse(&msgs[0]).is_some(); }
                    3 => { let c = other.clone(); let d = c.clone(); drop(c); let _ = d.name().is_some(); }
                    4 => { let _ = build().parse(&msgs[0]).is_some(); }
                    5 | 6 => {
                        let items: Vec<BuildResult> = (0..toks.len()).map(|i| Ok(make(i))).collect();
                        match kind { Kind::Trie => sourced::<TrieMatcherFactory>(items, call == 6), Kind::SuffixArray => sourced::<SuffixArrayMatcherFactory>(items, call == 6) }
                        logcap::take_errors();
                    }
                    _ => for i in 0..toks.len() { m.add_pattern(make(i)); },
                }));
                verdict(r, name, &|| format!("{:?} matcher, patterns with a large {}, large metadata: {}; {}, {} times\n", kind, what, metas[meta], name, rounds), l)?;
            }
        }
        Ok(())
    })
}

/// Never the same twice: lengths, names, sets, literals, values, tags, uuids.
fn fresh(rounds: usize) -> Family {
    let kinds = ["messages of ever other lengths", "pattern texts with ever other names", "pattern texts with ever other literals", "pattern texts with ever other sets and limits", "malformed texts, ever other", "patterns with ever other uuids, names, values and tags, built and dropped", "definitions (JSON) with ever other content", "sources with ever other failures", "messages with ever other values"];
    Family::new("fresh", format!("{} kinds of calls whose arguments never repeat ({}), {} times, both matchers", kinds.len(), kinds.join(", "), rounds), (kinds.len() * 2) as u64, move |item, l| {
        let kind = KINDS[item as usize % 2];
        let what = item as usize / 2;
        l.states += 1;
        l.transitions += rounds as u64;
        let pool = pool();
        let mut m = match guard(|| {
            let mut m = real::new_matcher(kind);
            for (i, t) in pool.iter().enumerate() {
                m.add_pattern(pattern(i, t));
            }
            m
        }) { Ok(m) => m, Err(_) => return Ok(()) };
        let mut buf = String::with_capacity(2 * rounds + 1000);
        if what == 0 {
            // a buffer that is used again may be as long as the longest message
            let long: String = (0..rounds + 200).map(|i| if i % 3 == 0 { 'a' } else { '1' }).collect();
            for t in [&long[..], &long[1..], &long[2..]].iter() {
                let _ = guard(|| m.parse(t).map(|r| r.values().len()));
            }
        }
        let r = guard(|| grows(50, rounds, |i| {
            match what {
                0 => {
                    // one character longer each time
                    buf.push(if i % 3 == 0 { 'a' } else { '1' });
                    let _ = m.parse(&buf).map(|r| r.values().len());
                }
                1 => { let _ = text::pattern(&format!("%{{INT:name{}}}a%{{GREEDY:g{}}}", i, i)).map(|c| c.len()); }
                2 => { let _ = text::pattern(&format!("literal {} %{{GREEDY:g}}end {}", i, i)).map(|c| c.len()); }
                3 => { let _ = text::pattern(&format!("%{{SET(\"ab{}\",min_len={},max_len={}):s}}", std::char::from_u32(0x4e00 + i as u32 % 20000).unwrap(), i, i + 1)).map(|c| c.len()); }
                4 => { let _ = text::pattern(&format!("text {}%{{INT:{}", i, i)).map_err(|e| e.to_string()).map(|c| c.len()); }
                5 => {
                    let mut values = BTreeMap::new();
                    values.insert(format!("key{}", i), format!("value{}", i));
                    let p = Pattern::new(Some(format!("name{}", i)), real::uuid(i), real::compiled(&[lit(&format!("lit{}", i)), int(&format!("n{}", i))]), None, Some(values), Some(vec![format!("tag{}", i)]));
                    let mut c = m.boxed_clone();
                    c.add_pattern(p);
                    let _ = c.parse("lit1").is_some();
                }
                6 => { let _ = Pattern::from_json(&format!("{{\"uuid\":\"9a49c47d-29e9-4072-be84-{:012x}\",\"name\":\"n{}\",\"pattern\":\"a{}%{{INT:n{}}}\",\"tags\":[\"t{}\"]}}", i, i, i, i, i)).map_err(|e| e.to_string()).map(|p| p.name().is_some()); }
                7 => {
                    let mut values = BTreeMap::new();
                    values.insert("n".to_owned(), format!("{}", i));
                    let t = TestMessage::new(format!("w{}:5", i), values, None);
                    let items: Vec<BuildResult> = vec![Ok(Pattern::new(None, real::uuid(i), real::compiled(&[lit(&format!("w{}:", i)), int("n")]), Some(vec![t]), None, None))];
                    match kind {
                        Kind::Trie => { let _ = <<TrieMatcherFactory as MatcherFactory>::Matcher as FromPatternSource>::from_source_ignore_errors::<TrieMatcherFactory>(&mut items.into_iter()); }
                        Kind::SuffixArray => { let _ = <<SuffixArrayMatcherFactory as MatcherFactory>::Matcher as FromPatternSource>::from_source_ignore_errors::<SuffixArrayMatcherFactory>(&mut items.into_iter()); }
                    }
                    logcap::take_errors();
                }
                _ => {
                    use std::fmt::Write;
                    buf.clear();
                    let _ = write!(buf, "{}{}{}", ["a", "", "a", "\u{e9}"][i % 4], i, ["", "", "b", "\u{e8}"][i % 4]);
                    let _ = m.parse(&buf).map(|r| r.values().len());
                }
            }
        }));
        m.add_pattern(pattern(0, &pool[0]));
        verdict(r, kinds[what], &|| show(kind, &(0..pool.len()).collect::<Vec<_>>(), &pool, &format!("{}: {} of them", kinds[what], rounds)), l)
    })
}

fn sources(k: usize, rounds: usize) -> Family {
    // kinds of items: passing, failing in four ways, unreadable
    let seqs = all_sequences(6, k);
    let bound = format!("all {} sources of up to {} items (passing, failing in four ways, unreadable), strictly and leniently, both matchers, {} times", seqs.len(), k, rounds);
    Family::new("sources", bound, seqs.len() as u64, move |item, l| {
        let seq = &seqs[item as usize];
        let make = |i: usize, k: usize| -> BuildResult {
            let one = |k: &str, v: &str| { let mut m = BTreeMap::new(); m.insert(k.to_owned(), v.to_owned()); m };
            let word = format!("w{}:", i);
            let t = match k {
                0 => TestMessage::new(format!("{}5", word), one("n", "5"), None),
                1 => TestMessage::new("other".to_owned(), one("n", "5"), None),
                2 => TestMessage::new(format!("{}5", word), one("n", "6"), None),
                3 => TestMessage::new(format!("{}5", word), one("m", "6"), None),
                4 => TestMessage::new(format!("{}5", word), one("n", "5"), Some(vec!["none".to_owned()])),
                _ => return Err(BuildError::UnsupportedFileExtension),
            };
            Ok(Pattern::new(None, real::uuid(i), real::compiled(&[lit(&word), int("n")]), Some(vec![t]), None, None))
        };
        fn both<F: MatcherFactory>(items: Vec<BuildResult>, lenient: bool) {
            let mut it = items.into_iter();
            if lenient {
                let _ = <F::Matcher as FromPatternSource>::from_source_ignore_errors::<F>(&mut it);
            } else {
                let _ = <F::Matcher as FromPatternSource>::from_source::<F>(&mut it).map_err(|e| e.to_string());
            }
        }
        for &kind in &KINDS {
            for lenient in [false, true] {
                l.states += 1;
                l.transitions += rounds as u64;
                let r = guard(|| grows(20, rounds, |_| {
                    let items: Vec<BuildResult> = seq.iter().enumerate().map(|(i, &k)| make(i, k)).collect();
                    match kind { Kind::Trie => both::<TrieMatcherFactory>(items, lenient), Kind::SuffixArray => both::<SuffixArrayMatcherFactory>(items, lenient) }
                    logcap::take_errors();
                }));
                verdict(r, "building from a source", &|| format!("{:?}, lenient {}, items {:?} (0 passes, 1 to 4 fail, 5 is unreadable), {} times\n", kind, lenient, seq, rounds), l)?;
            }
        }
        Ok(())
    })
}

fn open_files() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

fn files(rounds: usize) -> Family {
    let u = "9a49c47d-29e9-4072-be84-3b76c6814743";
    let good = format!("{{\"patterns\":[{{\"uuid\":\"{}\",\"pattern\":\"a%{{INT:n}}\",\"tags\":[\"t\"],\"test_messages\":[{{\"message\":\"a1\"}}]}}]}}", u);
    let docs: Vec<(&'static str, Option<Vec<u8>>)> = vec![
        ("json", Some(good.clone().into_bytes())), ("yaml", Some(good.clone().into_bytes())), ("json", Some(good.replace("\"a1\"", "\"b\"").into_bytes())), ("yml", Some(good.replace("\"a1\"", "\"b\"").into_bytes())),
        ("json", Some(good[..good.len() - 4].to_owned().into_bytes())), ("yaml", Some(good[..good.len() - 4].to_owned().into_bytes())), ("json", Some(good.replace("INT:", "INX:").into_bytes())), ("yaml", Some(good.replace("INT:", "INX:").into_bytes())),
        ("json", Some(good.replace(u, "x").into_bytes())), ("yaml", Some(good.replace("uuid", "uid").into_bytes())), ("json", Some(b"\xff".to_vec())), ("yaml", Some(b"a\xff".to_vec())), ("json", Some(vec![])), ("yaml", Some(vec![])), ("txt", Some(good.clone().into_bytes())), ("json", None), ("yaml", None), ("", None),
    ];
    // one item: the count of open files belongs to the process
    Family::new("files", format!("{} files, correct, failing, malformed, not UTF-8, missing, by 5 entry points, {} times: memory and open files", docs.len(), rounds), 1, move |_, l| {
        for (i, &(ext, ref content)) in docs.iter().enumerate() {
            let p = engine::scratch().join(format!("m{}.{}", i, ext));
            if let Some(ref c) = *content {
                std::fs::write(&p, c).expect("write scratch file");
            }
            let path = p.to_str().unwrap();
            for entry in 0..5 {
                l.states += 1;
                l.transitions += rounds as u64;
                let call = || {
                    match entry {
                        0 => { let _ = PatternLoader::load_file(path).map_err(|e| e.to_string()); }
                        1 => { let _ = PatternLoader::from_file::<TrieMatcherFactory>(path).map_err(|e| e.to_string()); }
                        2 => { let _ = PatternLoader::from_file::<SuffixArrayMatcherFactory>(path).map_err(|e| e.to_string()); }
                        3 => { let _ = PatternLoader::from_file_ignore_errors::<TrieMatcherFactory>(path).map_err(|e| e.to_string()); }
                        _ => { let _ = PatternLoader::from_file_ignore_errors::<SuffixArrayMatcherFactory>(path).map_err(|e| e.to_string()); }
                    }
                    logcap::take_errors();
                };
                let script = || format!("entry point {} on the .{} file {:?}, {} times\n", entry, ext, content.as_ref().map(|c| String::from_utf8_lossy(c).into_owned()), rounds);
                let before = open_files();
                let r = guard(|| grows(20, rounds, |_| call()));
                let after = open_files();
                verdict(r, "loading a file", &script, l)?;
                if after > before + 4 {
                    return violation(format!("{} files more are open afterwards", after - before), script());
                }
            }
        }
        Ok(())
    })
}

/// Each call in a thread of its own: nothing outlives the threads.
fn threads(rounds: usize) -> Family {
    let pool = pool();
    let n = pool.len();
    let calls = 8;
    // one item: nothing else runs beside it
    Family::new("threads", format!("{} patterns, 8 kinds of calls (building, parsing, adding again, cloning, compiling right and wrong texts, reading a definition, strict and lenient loads), both matchers: each in {} threads one after the other, whose whole memory is counted", n, rounds), 1, move |_, l| {
        logcap::set_level(LogLevelFilter::Off);
        for (t, kind, call) in (0..n).flat_map(|t| KINDS.iter().flat_map(move |&k| (0..calls).map(move |c| (t, k, c)))) {
            let tokens = pool[t].clone();
            let job = move || {
                let build = || { let mut m = real::new_matcher(kind); m.add_pattern(pattern(1, &tokens)); m };
                let source = || vec![Ok(pattern(1, &tokens)), Err(BuildError::UnsupportedFileExtension)].into_iter();
                let text = model::source(&tokens);
                let _ = guard(|| match call {
                    0 => { let m = build(); let _ = m.parse("a1b").is_some(); let _ = m.parse("é12è").is_some(); }
                    1 => { let mut m = build(); m.add_pattern(pattern(2, &tokens)); }
                    2 => { let m = build(); let c = m.boxed_clone(); drop(m); let _ = c.parse("ab").is_some(); }
                    3 => { let _ = text::pattern(&text).map(|p| p.iter().count()); }
                    4 => { let _ = text::pattern(&format!("{}%{{FOO", text)).is_err(); }
                    5 => { let _ = Pattern::from_json(&format!("{{\"uuid\":\"{}\",\"pattern\":{:?},\"name\":\"n\"}}", real::uuid(1).hyphenated(), text)).is_ok(); }
                    6 => { let _ = <<TrieMatcherFactory as MatcherFactory>::Matcher as FromPatternSource>::from_source::<TrieMatcherFactory>(&mut source()).is_ok(); }
                    _ => { let _ = <<SuffixArrayMatcherFactory as MatcherFactory>::Matcher as FromPatternSource>::from_source_ignore_errors::<SuffixArrayMatcherFactory>(&mut source()).parse("a"); }
                });
            };
            let go = |rounds: usize| for _ in 0..rounds {
                let job = job.clone();
                let _ = std::thread::Builder::new().spawn(job).map(|t| t.join());
            };
            go(20);
            TOTAL.store(0, Ordering::SeqCst);
            ALL.store(true, Ordering::SeqCst);
            go(rounds);
            ALL.store(false, Ordering::SeqCst);
            let grown = TOTAL.load(Ordering::SeqCst);
            l.states += 1;
            l.transitions += rounds as u64;
            verdict(Ok(if grown > SLACK { Some(grown) } else { None }), "calls in threads that have ended", &|| show(kind, &[t], &pool, &format!("call {} in {} threads one after the other", call, rounds)), l)?;
        }
        Ok(())
    })
}

/// The same with every record of the log taken.
fn traced(f: Family) -> Family {
    let run = f.run;
    Family::new(&format!("{}-trace", f.name), format!("{}; every record of the log taken", f.bound), f.items, move |item, l| {
        logcap::set_level(LogLevelFilter::Trace);
        run(item, l)
    })
}

fn build(p: &str, tier: Tier) -> Option<Check> {
    if p != "C26" {
        return None;
    }
    let quick = tier == Tier::Quick;
    logcap::set_level(LogLevelFilter::Error);
    Some(Check {
        property: p.to_owned(),
        families: vec![
            sequences(3, if quick { 20_000 } else { 60_000 }, if quick { 1100 } else { 4200 }, false),
            texts(if quick { 5000 } else { 100_000 }),
            large(if quick { 6 } else { 60 }),
            large_patterns(if quick { 12 } else { 100 }),
            fresh(if quick { 4000 } else { 30_000 }),
            sources(if quick { 3 } else { 4 }, if quick { 600 } else { 4200 }),
            files(if quick { 400 } else { 4200 }),
            threads(if quick { 500 } else { 5000 }),
            // last: the log level stays
            sequences(2, if quick { 2000 } else { 20_000 }, if quick { 300 } else { 2100 }, true),
            traced(sources(if quick { 2 } else { 3 }, if quick { 300 } else { 2100 })),
            traced(texts(if quick { 1000 } else { 20_000 })),
            traced(files(if quick { 200 } else { 2100 })),
        ],
        rule: "executions of one kind (parsing, cloning, adding again, building, compiling, loading) count as one outcome".to_owned(),
        assumptions: vec![
            format!("up to {} bytes may stay (buffers made once); what is held is counted by the allocator of the process", SLACK),
        ],
    })
}

fn main() {
    engine::main(build)
}
