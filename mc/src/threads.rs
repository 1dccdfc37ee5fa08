//! Operations of two threads on matchers, patterns and texts of their own, interleaved at every instruction.

use crate::engine::{violation, Family, Local, Outcome};
use crate::logcap;
use crate::model::{self, greedy, int, link_greedy, lit, set, Tokens};
use crate::real::{self, ask, Kind, Seen, KINDS};
use crate::step::{self, within, At, Other};
use actiondb::grammar::parser as text;
use actiondb::matcher::compiled_pattern::{CompiledPattern, TokenType};
use actiondb::matcher::pattern::testmessage::TestMessage;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::parsers::{GreedyParser, IntParser, Parser, SetParser};
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::{BuildError, FromPatternSource, Matcher, MatcherFactory, Pattern};
use log::LogLevelFilter;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Out {
    Seen(Option<Seen>),
    Tokens(Vec<(Option<String>, u64)>),
    Text(String),
}

pub const OPS: [&str; 14] = [
    "parse (trie)", "parse (suffix array)", "a parse that fails (trie)", "a parse that fails (suffix array)", "add_pattern (trie)", "add_pattern (suffix array)", "boxed_clone (trie)", "boxed_clone (suffix array)",
    "compiling a pattern text", "rejecting a pattern text", "reading a definition", "a strict load", "a strict load that fails", "parsers of the library on their own",
];

pub struct World {
    pub patterns: Vec<Tokens>,
    pub yes: &'static str,
    pub no: &'static str,
    pub text: &'static str,
    pub broken: &'static str,
    pub ids: usize,
}

/// Only for the second thread: uses up what is there only a limited number of times.
pub const LONG: usize = OPS.len();

fn name(op: usize) -> &'static str {
    if op == LONG { "forty rounds of parsing, hashing, cloning, adding, compiling and loading" } else { OPS[op] }
}

/// Worlds that resemble each other: equal beginnings with other parsers, other names, other ids.
pub fn worlds() -> Vec<World> {
    vec![
        World { patterns: vec![vec![lit("a"), int("x"), lit("b")], vec![lit("ab")]], yes: "a12b", no: "a12c", text: "a%{INT:x}b", broken: "a%{INT:x", ids: 10 },
        World { patterns: vec![vec![lit("a"), set("12", "y"), lit("b")], vec![lit("aa")]], yes: "a12b", no: "a3b", text: "a%{SET(\"12\"):y}b", broken: "ab%{FOO}", ids: 20 },
        World { patterns: vec![link_greedy(vec![lit("a"), greedy("z"), lit("b")])], yes: "a1 2b", no: "a12", text: "a%{GREEDY:z}b", broken: "", ids: 30 },
        World { patterns: vec![vec![lit("a"), int("x"), lit("b")], vec![lit("a"), int("x")]], yes: "a4567", no: "b", text: "\\%\\{%{INT(min_len=1,max_len=4):x}", broken: "\n%{SET(\"}", ids: 40 },
        World { patterns: vec![link_greedy(vec![lit("a"), int("x"), lit("-"), set("12", "y"), lit("b"), greedy("z"), lit("!"), set("c", "c")]), vec![lit("a")]], yes: "a12-21b3!c", no: "a12-21b3!d", text: "a%{INT:x}-%{SET(\"12\"):y}b%{GREEDY:z}!\\%\\{", broken: "a%{INT:x}\nb%{GREEDY", ids: 50 },
    ]
}

fn tokens(cp: &CompiledPattern) -> Out {
    Out::Tokens(cp.iter().map(|t| match *t {
        TokenType::Literal(ref l) => (Some(l.clone()), 0),
        TokenType::Parser(ref p) => (p.name().map(|n| n.to_owned()), p.hash_os()),
    }).collect())
}

fn load<M: Matcher>(r: &Result<M, BuildError>, msg: &str) -> Out {
    match *r {
        Ok(ref m) => Out::Seen(ask(m, msg)),
        Err(ref e) => Out::Text(format!("{}", e)),
    }
}

/// Prepares an operation; what is explored of it is inside of `within`.
pub fn op(w: usize, op: usize) -> Box<dyn FnMut() -> Out> {
    let World { patterns, yes, no, text, broken, ids } = worlds().swap_remove(w);
    let kind = KINDS[op % 2];
    let pats = move || -> Vec<Pattern> { patterns.iter().enumerate().map(|(i, p)| real::pattern(ids + i, p)).collect() };
    let build = |k: Kind, p: Vec<Pattern>| {
        let mut m = real::new_matcher(k);
        for p in p {
            m.add_pattern(p);
        }
        m
    };
    let seen = |r: Option<actiondb::matcher::result::MatchResult>| Out::Seen(r.map(|r| Seen { id: real::uuid_id(r.pattern().uuid()), values: real::owned_values(r.values()) }));
    match op {
        0..=3 => {
            let m = build(kind, pats());
            let msg = if op < 2 { yes } else { no };
            Box::new(move || seen(within(|| m.parse(msg))))
        }
        4 | 5 => Box::new(move || {
            let mut p = pats();
            let last = p.remove(0);
            let mut m = build(kind, p);
            within(|| m.add_pattern(last));
            Out::Seen(ask(&*m, yes))
        }),
        6 | 7 => {
            let m = build(kind, pats());
            Box::new(move || {
                let c = within(|| m.boxed_clone());
                Out::Seen(ask(&*c, yes))
            })
        }
        8 => Box::new(move || match within(|| text::pattern(text)) {
            Ok(cp) => tokens(&cp),
            Err(e) => Out::Text(format!("{}", e)),
        }),
        9 => Box::new(move || match within(|| text::pattern(broken)) {
            Ok(cp) => tokens(&cp),
            // the expected things come in any order
            Err(e) => Out::Text(format!("{}:{} {:?}", e.line, e.column, e.expected.iter().collect::<std::collections::BTreeSet<_>>())),
        }),
        10 => Box::new(move || {
            let doc = format!("{{\"uuid\":\"{}\",\"pattern\":{:?},\"name\":\"n{}\",\"tags\":[\"t{}\"]}}", real::uuid(ids), text, ids, ids);
            match within(|| Pattern::from_json(&doc)) {
                Ok(p) => Out::Text(format!("{} {:?} {:?} {:?}", p.uuid(), p.name(), p.tags(), tokens(p.pattern()))),
                Err(e) => Out::Text(format!("{}", e)),
            }
        }),
        11 | 12 => Box::new(move || {
            let strict = |fail: bool| {
                let mut source: Vec<Result<Pattern, BuildError>> = pats().into_iter().map(Ok).collect();
                source.truncate(1);
                let p = source.remove(0).unwrap();
                let test = TestMessage::new(if fail { no } else { yes }.to_owned(), BTreeMap::new(), None);
                source.insert(0, Ok(Pattern::new(p.name().map(|n| n.to_owned()), p.uuid().clone(), p.pattern().clone(), Some(vec![test]), None, None)));
                source
            };
            let mut s = strict(op == 12).into_iter();
            if ids % 20 == 0 {
                load(&within(|| <<TrieMatcherFactory as MatcherFactory>::Matcher as FromPatternSource>::from_source::<TrieMatcherFactory>(&mut s)), yes)
            } else {
                load(&within(|| <<SuffixArrayMatcherFactory as MatcherFactory>::Matcher as FromPatternSource>::from_source::<SuffixArrayMatcherFactory>(&mut s)), yes)
            }
        }),
        LONG => {
            let ms: Vec<_> = KINDS.iter().map(|&k| build(k, pats())).collect();
            Box::new(move || {
                let mut answers = vec![];
                for _ in 0..40 {
                    for m in &ms {
                        let mut c = m.boxed_clone();
                        c.add_pattern(pats().remove(0));
                        answers.push(format!("{:?} {:?} {:?}", ask(&**m, yes), ask(&*c, yes), ask(&**m, no)));
                    }
                    answers.push(match text::pattern(text) { Ok(cp) => format!("{:?}", tokens(&cp)), Err(e) => format!("{}", e) });
                    let mut s = pats().into_iter().map(Ok).collect::<Vec<_>>().into_iter();
                    answers.push(format!("{:?}", load(&<<TrieMatcherFactory as MatcherFactory>::Matcher as FromPatternSource>::from_source::<TrieMatcherFactory>(&mut s), yes)));
                }
                // unlike anything in the worlds
                let others: Vec<Box<dyn Parser>> = vec![Box::new(SetParser::from_str("o", "#$&*+")), Box::new(IntParser::with_name("other")), Box::new(GreedyParser::from_str("others", "~~~"))];
                for _ in 0..64 {
                    answers.push(format!("{:?}", others.iter().map(|p| (p.hash_os(), p.parse("$$123~~~").map(|r| r.value().to_owned()))).collect::<Vec<_>>()));
                }
                answers.dedup();
                let n = answers.len();
                answers.truncate(5);
                Out::Text(format!("{} {}", n, answers.join("; ")))
            })
        }
        _ => Box::new(move || {
            let ps: Vec<_> = pats()[0].pattern().iter().filter_map(|t| match *t { TokenType::Parser(ref p) => Some(p.boxed_clone()), _ => None }).collect();
            within(|| Out::Tokens(ps.iter().map(|p| {
                let h = p.hash_os();
                (p.parse(&yes[1..]).map(|r| r.value().to_owned()), h)
            }).collect()))
        }),
    }
}

/// Single steps work here.
fn works() -> bool {
    let o = Other::new(|| || 0);
    let r = step::explore(&o, At::Everywhere, false, || within(|| (0..20u64).map(|x| std::hint::black_box(x)).sum::<u64>()));
    r.points > 10 && r.handed > 10 && r.result == Ok(190)
}

fn show(wa: usize, a: usize, wb: usize, b: usize, at: At) -> String {
    let ws = worlds();
    let world = |w: usize| format!("patterns {:?}, messages {:?} and {:?}, texts {:?} and {:?}", ws[w].patterns.iter().map(|t| model::source(t)).collect::<Vec<_>>(), ws[w].yes, ws[w].no, ws[w].text, ws[w].broken);
    format!("first thread: {}; {}\nsecond thread: {}; {}\n{}\n", name(a), world(wa), name(b), world(wb), match at {
        At::Point(n) => format!("the second thread runs its operation when the first has executed {} instructions of its own", n),
        At::Break(n) => format!("the second thread runs its operation when the first is about to execute the instruction at byte {} of the program for the first time", n),
        At::Everywhere => "the second thread runs its operation before every instruction of the first".to_owned(),
        At::Nowhere => "the first thread alone, one instruction at a time".to_owned(),
    })
}

fn run(wa: usize, a: usize, wb: usize, b: usize, visits: Option<usize>, part: (u64, u64), l: &mut Local) -> Outcome {
    logcap::set_level(LogLevelFilter::Off);
    if !works() {
        return Ok(()); // no single steps on this machine: nothing is covered, as the counters show
    }
    let mut first = op(wa, a);
    let expected = match crate::engine::guard(|| first()) {
        Ok(x) => x,
        Err(e) => return violation(format!("{} panics: {}", name(a), e), show(wa, a, wb, b, At::Nowhere)),
    };
    let other = Other::new(move || op(wb, b));
    let mut schedule = |at: At, record: bool, l: &mut Local| -> Result<step::Report<Out>, crate::engine::Violation> {
        let r = step::explore(&other, at, record, || first());
        l.transitions += r.handed;
        l.traces += 1;
        match r.result {
            Err(ref e) => return violation(format!("{} panics: {}", name(a), e), show(wa, a, wb, b, at)),
            Ok(ref x) if *x != expected => return violation(format!("{} gives {:?} instead of {:?}", name(a), x, expected), show(wa, a, wb, b, at)),
            Ok(_) => {}
        }
        if let Some(x) = other.bad() {
            return violation(format!("{} gives {}", name(b), x), show(wa, a, wb, b, at));
        }
        if !r.settled {
            return violation(format!("{} does not return", name(b)), show(wa, a, wb, b, at));
        }
        Ok(r)
    };
    let visits = match visits {
        None => {
            let r = schedule(At::Everywhere, false, l)?;
            l.states += r.points;
            l.outcome(&(a, b, r.points));
            return Ok(());
        }
        Some(v) => v,
    };
    let alone = schedule(At::Nowhere, true, l)?;
    let mut met: std::collections::HashMap<u32, usize> = std::collections::HashMap::new();
    for (i, rip) in alone.rips.iter().enumerate() {
        let n = met.entry(*rip).or_insert(0);
        *n += 1;
        if *n > visits || i as u64 % part.1 != part.0 {
            continue;
        }
        l.states += 1;
        l.outcome(&(a, b, rip));
        schedule(At::Point(i as u64), false, l)?;
    }
    Ok(())
}

fn pairs() -> Vec<(usize, usize)> {
    vec![(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1), (0, 3), (3, 0), (1, 3), (3, 2)]
}

/// The second thread's operation runs before every single instruction of the first one's.
pub fn everywhere(all: bool) -> Family {
    let worlds = if all { pairs() } else { pairs()[..2].to_vec() };
    let n = OPS.len() as u64;
    let bound = format!("all pairs of {} operations of two threads on things of their own, {} pairs of pattern sets: before every instruction of the first operation the second one runs from beginning to end", n, worlds.len());
    Family::new("every-instruction", bound, n * n * worlds.len() as u64, move |item, l| {
        let (wa, wb) = worlds[(item / n / n) as usize];
        run(wa, (item % n) as usize, wb, (item / n % n) as usize, None, (0, 1), l)
    })
}

/// One preemption, at every instruction.
pub fn once(ops: Vec<usize>, seconds: Vec<usize>, worlds: usize, visits: usize, parts: u64) -> Family {
    let worlds = pairs()[..worlds].to_vec();
    let bound = format!("{} operations of one thread, {} of another, {} pairs of pattern sets: all schedules with one preemption, at the first {} executions of every instruction of the first operation", ops.len(), seconds.len(), worlds.len(), visits);
    let (n, m) = (ops.len() as u64, seconds.len() as u64);
    Family::new("one-preemption-again", bound, n * m * worlds.len() as u64 * parts, move |item, l| {
        let (part, item) = (item % parts, item / parts);
        let (wa, wb) = worlds[(item / n / m) as usize];
        run(wa, ops[(item % n) as usize], wb, seconds[(item / n % m) as usize], Some(visits), (part, parts), l)
    })
}

// ---------------------------------------------------------------- the first use in a process

/// Runs `f` in a process of its own that has not used the library yet.
fn child<F: FnOnce() -> String>(f: F) -> Option<String> {
    use std::io::Read;
    use std::os::unix::io::FromRawFd;
    let mut fds = [0; 2];
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            return None;
        }
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return None;
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let s = f();
            let b = s.as_bytes();
            let mut n = 0;
            while n < b.len() {
                let w = libc::write(fds[1], b[n..].as_ptr() as *const _, b.len() - n);
                if w <= 0 {
                    break;
                }
                n += w as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut s = String::new();
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut s);
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        if status != 0 {
            s = format!("the process ends with status {}", status);
        }
        Some(s)
    }
}

/// The process behind an item of `processes`; it never uses the library itself.
pub fn fresh_main(args: &[String]) -> ! {
    let n: Vec<usize> = args.iter().map(|a| a.parse().expect("number")).collect();
    let (wa, a, wb, b, part, parts, used, depth) = (n[0], n[1], n[2], n[3], n[4], n[5], n[6] == 1, n[7]);
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    std::panic::set_hook(Box::new(|_| {}));
    let lost = || -> ! { println!("LOST"); std::process::exit(0) };
    let alone = |w: usize, o: usize| child(move || format!("{:?}", crate::engine::guard(|| op(w, o)())));
    let (ea, eb) = match (alone(wa, a), alone(wb, b)) { (Some(x), Some(y)) => (x, y), _ => lost() };
    let both = |at: At, record: bool| child(move || {
        let mut first = op(wa, a);
        if used {
            let _ = crate::engine::guard(|| first());
        }
        let got = std::sync::Arc::new(std::sync::Mutex::new(None));
        let other = Other::fresh(move || {
            let mut second = op(wb, b);
            if used {
                let _ = crate::engine::guard(|| second());
            }
            second
        }, got.clone());
        let r = step::explore(&other, at, record, || first());
        if record {
            let mut met = std::collections::HashSet::new();
            let l: Vec<String> = r.rips.iter().filter(|r| met.insert(**r)).map(|r| r.to_string()).collect();
            return l.join(" ");
        }
        let second = got.lock().unwrap().take();
        format!("{}\n{}\n{}", match second { Some(x) => format!("{:?}", x), None => "-".to_owned() }, r.settled, format!("{:?}", r.result))
    });
    if depth > 0 {
        relays(wa, a, wb, b, used, depth, &ea, &eb);
    }
    let points = match both(At::Nowhere, true) { Some(p) => p, None => lost() };
    let (mut states, mut handed) = (0, 0);
    for (k, p) in points.split(' ').filter_map(|p| p.parse::<u32>().ok()).enumerate() {
        if k % parts != part {
            continue;
        }
        let r = match both(At::Break(p), false) { Some(r) => r, None => lost() };
        states += 1;
        handed += !r.starts_with("-\n") as u64;
        let lines: Vec<&str> = r.splitn(3, '\n').collect();
        let what = if lines.len() < 3 {
            r.clone()
        } else if lines[1] != "true" {
            format!("{} does not return", name(b))
        } else if lines[2] != ea {
            format!("{} gives {} instead of {}", name(a), lines[2], ea)
        } else if lines[0] != "-" && lines[0] != eb {
            format!("{} gives {} instead of {}", name(b), lines[0], eb)
        } else {
            continue;
        };
        println!("BAD {} {}", p, what.replace('\n', " "));
        std::process::exit(0);
    }
    println!("OK {} {}", states, handed);
    std::process::exit(0)
}

/// Schedules of one pair of operations with up to `depth` preemptions, next to the instructions that write static memory.
fn relays(wa: usize, a: usize, wb: usize, b: usize, used: bool, depth: usize, ea: &str, eb: &str) -> ! {
    let mut queue = std::collections::VecDeque::from(vec![Vec::<u64>::new()]);
    let (mut states, mut handed) = (0, 0);
    let start = std::time::Instant::now();
    while let Some(plan) = queue.pop_front() {
        if states == SCHEDULES[(depth > 3) as usize] || start.elapsed().as_secs() >= SECONDS[(depth > 3) as usize] {
            break;
        }
        let p = plan.clone();
        let out = child(move || {
            let mut first = op(wa, a);
            if used {
                let _ = crate::engine::guard(|| first());
            }
            let r = step::race(move || {
                let mut second = op(wb, b);
                if used {
                    let _ = crate::engine::guard(|| second());
                }
                second
            }, || first(), &p);
            let t = p.len() % 2;
            let from = if p.len() > 1 { p[p.len() - 2] } else { 0 };
            let next: Vec<String> = if r.free { Vec::new() } else { r.points[t].iter().filter(|n| **n > from).map(|n| n.to_string()).collect() };
            let show = |x: &Option<Result<Out, String>>| match *x { Some(ref x) => format!("{:?}", x), None => "nothing: it does not return".to_owned() };
            format!("{}\n{}\n{}", next.join(" "), show(&r.results[1]), show(&r.results[0]))
        });
        let r = match out { Some(r) => r, None => { println!("LOST"); std::process::exit(0) } };
        states += 1;
        handed += plan.len() as u64 + 1;
        let lines: Vec<&str> = r.splitn(3, '\n').collect();
        let bad = if lines.len() < 3 {
            r.clone()
        } else if lines[2] != ea {
            format!("{} gives {} instead of {}", name(a), lines[2], ea)
        } else if lines[1] != eb {
            format!("{} gives {} instead of {}", name(b), lines[1], eb)
        } else {
            if plan.len() < depth {
                let mut points: Vec<u64> = lines[0].split(' ').filter_map(|p| p.parse().ok()).collect();
                points.sort();
                points.dedup();
                queue.extend(points.into_iter().map(|p| plan.iter().cloned().chain(std::iter::once(p)).collect::<Vec<_>>()));
            }
            continue;
        };
        println!("BAD {} {}", plan.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(","), bad.replace('\n', " "));
        std::process::exit(0);
    }
    println!("OK {} {}", states, handed);
    std::process::exit(0)
}

/// At most so many of them for one pair, up to three preemptions and more.
const SCHEDULES: [u64; 2] = [300, 4000];

/// And for so long. Only where static memory is written at all there is more than one.
const SECONDS: [u64; 2] = [1, 20];

/// Several preemptions, at the instructions that change what two threads can share without being given it.
pub fn relay(all: bool, depth: usize) -> Family {
    let worlds = if all { vec![(4, 4), (0, 3), (1, 1), (2, 4), (4, 2), (0, 1), (1, 0), (3, 2)] } else { vec![(0, 1), (4, 4)] };
    let n = OPS.len();
    let list: Vec<(usize, usize, usize, usize)> = worlds.iter().flat_map(|&(wa, wb)| (0..n * n).map(move |i| (wa, i % n, wb, i / n))).collect();
    let bound = format!("all pairs of {} operations of two threads, {} pairs of pattern sets, as the first things of a process and after each was done once: all schedules with up to {} preemptions before and after the instructions that write static memory, up to {} and {} s for each pair", n, worlds.len(), depth, SCHEDULES[(depth > 3) as usize], SECONDS[(depth > 3) as usize]);
    Family::new("more-preemptions", bound, list.len() as u64 * 2, move |item, l| {
        let used = item % 2;
        let (wa, a, wb, b) = list[(item / 2) as usize];
        if !works() {
            return Ok(());
        }
        let args: Vec<String> = [wa, a, wb, b, 0, 1, used as usize, depth].iter().map(|x| x.to_string()).collect();
        let out = std::process::Command::new(std::env::current_exe().expect("own path")).arg("--fresh").args(&args).output().expect("start itself");
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let mut words = text.trim_end().splitn(3, ' ');
        match (words.next(), words.next(), words.next()) {
            (Some("OK"), Some(n), Some(handed)) => {
                let n: u64 = n.parse().expect("number");
                l.states += n;
                l.transitions += handed.parse::<u64>().expect("number");
                l.traces += n;
                l.outcome(&(a, b, wa, wb, used, n));
                Ok(())
            }
            (Some("BAD"), Some(plan), Some(what)) => violation(what.to_owned(), format!("{}\n{}the threads change when they have executed so many instructions of their own, first, second, first and so on: [{}]; and where one ends\n", if used == 1 { "both operations were done once before, each by its thread" } else { "both operations are the first things that happen in the process" }, show(wa, a, wb, b, At::Nowhere).replace("the first thread alone, one instruction at a time\n", ""), plan)),
            _ => panic!("{:?} {}", text, String::from_utf8_lossy(&out.stderr)),
        }
    })
}

/// One preemption at every instruction, each schedule in a process of its own, which has not used the library
/// before when `used` is false.
pub fn processes(used: bool, all: bool, parts: u64) -> Family {
    // the same kinds of parsers, and different ones, on both sides
    let worlds = match (used, all) {
        (_, true) => vec![(4, 4), (0, 3), (1, 1), (2, 4), (4, 2), (0, 1), (1, 0), (3, 2)],
        (true, false) => vec![(0, 1), (4, 2)],
        (false, false) => vec![(4, 4), (0, 3)],
    };
    let n = OPS.len();
    let list: Vec<(usize, usize, usize, usize)> = worlds.iter().flat_map(|&(wa, wb)| (0..n * n).map(move |i| (wa, i % n, wb, i / n))).chain((0..n).map(|a| if used { (1, a, 4, LONG) } else { (4, a, 1, LONG) })).collect();
    let bound = format!("all pairs of {} operations of two threads (the second one also does forty rounds of them), {} pairs of pattern sets, {}: all schedules with one preemption, at the first execution of every instruction of the first operation", n, worlds.len(), if used { "each done once before" } else { "the first things a process does with the library" });
    Family::new(if used { "one-preemption" } else { "first-use" }, bound, list.len() as u64 * parts, move |item, l| {
        let part = item % parts;
        let (wa, a, wb, b) = list[(item / parts) as usize];
        if !works() {
            return Ok(());
        }
        let args: Vec<String> = [wa, a, wb, b, part as usize, parts as usize, used as usize, 0].iter().map(|x| x.to_string()).collect();
        let out = std::process::Command::new(std::env::current_exe().expect("own path")).arg("--fresh").args(&args).output().expect("start itself");
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let mut words = text.trim_end().splitn(3, ' ');
        match (words.next(), words.next(), words.next()) {
            (Some("OK"), Some(n), Some(handed)) => {
                let n: u64 = n.parse().expect("number");
                l.states += n;
                l.transitions += handed.parse::<u64>().expect("number");
                l.traces += n;
                l.outcome(&(a, b, wa, wb, part));
                Ok(())
            }
            (Some("BAD"), Some(p), Some(what)) => violation(what.to_owned(), format!("{}\n{}", if used { "both operations were done once before, each by its thread" } else { "both operations are the first things that happen in the process" }, show(wa, a, wb, b, At::Break(p.parse().expect("number"))))),
            _ => panic!("{:?} {}", text, String::from_utf8_lossy(&out.stderr)),
        }
    })
}
