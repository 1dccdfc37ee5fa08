//! C25: every way to build a matcher out of the same patterns leads to the same answers.
use actiondb::matcher::compiled_pattern::{CompiledPattern, CompiledPatternBuilder, TokenType};
use actiondb::matcher::Matcher;
use log::LogLevelFilter;
use mc::doc::{arr, obj, s, V};
use mc::engine::{self, guard, violation, Check, Family, Local, Outcome, Tier};
use mc::logcap;
use mc::model::{self, greedy, int, link_greedy, lit, set, Tok, Tokens};
use mc::real::{self, Kind, KINDS};
use mc::routes::{build_kind, spec, Map, Spec, ROUTES};
use mc::space::{int_min, set_min, shaped};
use mc::strings::{all_sequences, all_strings, ladder};
use std::collections::BTreeMap;

type Answer = Option<(Option<usize>, Vec<(String, String)>, Option<String>, Option<Map>, Option<Vec<String>>)>;

fn ask(m: &dyn Matcher, msg: &str, bare: bool) -> Answer {
    m.parse(msg).map(|r| {
        let p = r.pattern();
        let id = real::uuid_id(p.uuid());
        let values = real::owned_values(r.values());
        if bare { (id, values, None, None, None) } else { (id, values, p.name().map(|x| x.to_owned()), p.values().cloned(), p.tags().map(|t| t.to_vec())) }
    })
}

fn check(seq: &[&Spec], msgs: &[String], routes: &[usize], l: &mut Local) -> Outcome {
    for &kind in &KINDS {
        let made = |route: usize, l: &Local| guard(|| build_kind(kind, seq, route, l, msgs));
        let list = || seq.iter().enumerate().map(|(i, p)| format!("  #{} {} name={:?} values={:?} tags={:?}\n", i, model::source(&p.tokens), p.name, p.values, p.tags)).take(60).collect::<String>();
        // the reference: a route that panics or a message that panics there is another property's business
        let base = match made(0, l) { Ok(Ok(m)) => m, _ => continue };
        let exp: Vec<Option<(Answer, Answer)>> = msgs.iter().map(|x| guard(|| (ask(&*base, x, false), ask(&*base, x, true))).ok()).collect();
        l.states += 1;
        l.outcome(&exp.iter().map(|x| x.as_ref().map(|x| x.1.as_ref().map(|a| (a.0, a.1.len())))).collect::<Vec<_>>());
        for &route in routes.iter().filter(|r| **r != 0) {
            l.traces += 1;
            let script = || format!("{:?} matcher, patterns in the order of addition:\n{}built by: {}\nreference: {}\n", kind, list(), ROUTES[route], ROUTES[0]);
            let m = match made(route, l) {
                Err(p) => return violation(format!("building panics: {}", p), script()),
                Ok(Err(x)) => return violation(x, script()),
                Ok(Ok(m)) => m,
            };
            logcap::take_errors();
            for (x, exp) in msgs.iter().zip(&exp) {
                l.transitions += 1;
                let exp = match *exp { Some(ref e) => if route == 5 { &e.1 } else { &e.0 }, None => continue };
                match guard(|| ask(&*m, x, route == 5)) {
                    Err(p) => return violation(format!("parsing {:?} panics: {}", x, p), script()),
                    Ok(ref got) => if got != exp {
                        return violation(format!("the message {:?} gives {:?}; by the reference route it gives {:?}", x, got, exp), script());
                    },
                }
            }
        }
    }
    Ok(())
}

fn all_routes() -> Vec<usize> {
    (0..ROUTES.len()).collect()
}

/// All sequences of up to k patterns out of a pool.
fn sequences(name: &str, pool: Vec<Tokens>, msgs: Vec<String>, k: usize) -> Family {
    let seqs = all_sequences(pool.len(), k);
    let bound = format!("all {} sequences of up to {} patterns out of {}, by {} routes in both matchers, {} messages each", seqs.len(), k, pool.len(), ROUTES.len(), msgs.len());
    let chunk = 8u64;
    Family::new(name, bound, (seqs.len() as u64 + chunk - 1) / chunk, move |item, l| {
        for q in seqs.iter().skip((item * chunk) as usize).take(chunk as usize) {
            let specs: Vec<Spec> = q.iter().enumerate().map(|(i, &k)| spec(pool[k].clone(), i + k)).collect();
            l.sample(|| specs.iter().map(|p| model::source(&p.tokens)).collect::<Vec<_>>().join("  "));
            check(&specs.iter().collect::<Vec<_>>(), &msgs, &all_routes(), l)?;
        }
        Ok(())
    })
}

/// One pattern each, of every shape.
fn shapes(quick: bool) -> Family {
    let parsers = [int(""), int("x"), int_min("n.a_b1", Some(2), None), int_min("", Some(1), Some(3)), set("ab", "s"), set_min("é1%{", "x", Some(1), Some(2)), set_min("b", "", None, Some(2)), greedy("g"), greedy("")];
    let pool = shaped(&["a", "é", "b 1", "%{", ": \"#'\\ "], &parsers, if quick { 3 } else { 4 });
    let mut msgs = all_strings(&['a', 'b', '1', 'é'], 3);
    msgs.extend(["%{", "a%{", "b 1", "b 11", "1b 1", ": \"#'\\ ", "a: \"#'\\ ", "12", "123", "1234", "\"\"", "%{%{", "é1\"", "abab1"].iter().map(|x| x.to_string()));
    let bound = format!("all {} patterns of up to {} items (literals with quotes, blanks, escapes and multi-byte characters; INT, SET, GREEDY with and without names and limits), by {} routes, {} messages", pool.len(), if quick { 3 } else { 4 }, ROUTES.len(), msgs.len());
    let chunk = 16u64;
    Family::new("shapes", bound, (pool.len() as u64 + chunk - 1) / chunk, move |item, l| {
        for (i, t) in pool.iter().enumerate().skip((item * chunk) as usize).take(chunk as usize) {
            check(&[&spec(t.clone(), i)], &msgs, &all_routes(), l)?;
        }
        Ok(())
    })
}

/// Literals of blanks, line breaks and the like, in every place of a pattern.
fn blanks(quick: bool) -> Family {
    let lits = all_strings(&[' ', '\n', '\t', '\r', 'a', '#'], if quick { 3 } else { 4 });
    let lits: Vec<String> = lits.into_iter().filter(|x| !x.is_empty()).collect();
    let bound = format!("all {} texts of up to {} blanks, line breaks, tabs, carriage returns, # and a: as the whole pattern, first, last, after GREEDY, between parsers; by {} routes", lits.len(), if quick { 3 } else { 4 }, ROUTES.len());
    Family::new("blanks", bound, lits.len() as u64, move |item, l| {
        let x = &lits[item as usize];
        let pats: Vec<Tokens> = vec![vec![lit(x)], vec![lit(x), int("n")], vec![int("n"), lit(x)], vec![greedy("g"), lit(x)], vec![lit("k"), greedy("g"), lit(x), int("n")], vec![set(" \n\t\ra#", "s"), lit("k"), lit(x)]];
        let trimmed = x.trim().to_owned();
        let mut msgs = vec![];
        for t in [x.clone(), trimmed.clone(), x.trim_start().to_owned(), x.trim_end().to_owned(), x.replace("\r\n", "\n"), x.chars().take(1).collect(), format!("{} ", x), format!("{}\n", x)] {
            msgs.extend([t.clone(), format!("{}1", t), format!("1{}", t), format!("z{}", t), format!("z{}z{}", t.chars().take(1).collect::<String>(), t), format!("kz{}1", t), format!("k{}1", t)]);
        }
        msgs.sort();
        msgs.dedup();
        for (i, p) in pats.iter().take(5).enumerate() {
            check(&[&spec(p.clone(), i)], &msgs, &all_routes(), l)?;
        }
        let both = [spec(pats[0].clone(), 0), spec(pats[3].clone(), 1), spec(pats[4].clone(), 4)];
        check(&both.iter().collect::<Vec<_>>(), &msgs, &all_routes(), l)
    })
}

/// Long lists of patterns that overlap in several ways.
fn lists(ns: Vec<usize>) -> Family {
    let bound = format!("lists of {} sizes up to {} (same parsers under other names, growing literals, limits that differ, common stems), by {} routes", ns.len(), ns[ns.len() - 1], ROUTES.len());
    Family::new("lists", bound, ns.len() as u64 * 4, move |item, l| {
        let n = ns[(item / 4) as usize];
        let toks = |i: usize| -> Tokens {
            match item % 4 {
                0 => vec![lit("p:"), int(&format!("n{}", i))],
                1 => vec![lit(&"ab".repeat(i + 1)[..i + 1]), greedy("g")],
                2 => vec![int_min("n", Some(i + 1), None), lit(";"), set("ab", &format!("s{}", i % 7))],
                _ => vec![lit(&format!("w{}:", i / 2)), if i % 2 == 0 { int("n") } else { greedy("g") }],
            }
        };
        let specs: Vec<Spec> = (0..n).map(|i| spec(toks(i), i)).collect();
        let mut msgs: Vec<String> = vec!["".to_owned(), "p:1".to_owned(), "a".to_owned(), "abab".to_owned(), "w0:1".to_owned(), "w0:x".to_owned(), "1;a".to_owned()];
        for i in [0, n / 3, n / 2, n - 1] {
            msgs.push("ab".repeat(i + 2)[..i + 1].to_owned());
            msgs.push(format!("{};ab", "7".repeat(i + 1)));
            msgs.push(format!("w{}:5", i / 2));
            msgs.push(format!("w{}:z", i / 2));
        }
        let routes: Vec<usize> = all_routes().into_iter().filter(|&r| r != 20 || n <= 70).collect();
        check(&specs.iter().collect::<Vec<_>>(), &msgs, &routes, l)
    })
}

/// Texts of every length in the pattern and its names.
fn lengths(ns: Vec<usize>) -> Family {
    let bound = format!("{} lengths up to {} of literals, sets and names (4 widths of characters), by {} routes", ns.len(), ns[ns.len() - 1], ROUTES.len());
    Family::new("lengths", bound, ns.len() as u64, move |item, l| {
        let n = ns[item as usize];
        for unit in ["a", "é", "€", "😀"] {
            let x = unit.repeat(n);
            let y = format!("{}z", x);
            let seq = [spec(vec![lit(&x)], 1), spec(vec![lit(&y), int("n")], 2), spec(vec![lit("q"), greedy("g"), lit(&x)], 3), spec(vec![lit("s"), set_min(&format!("{}1", unit), &"n".repeat(n), Some(n), Some(n + 1))], 5)];
            let msgs = vec![x.clone(), y.clone(), format!("{}5", y), format!("q{}", x), format!("qz{}", x), format!("q{}{}", x, x), format!("s{}", x), format!("s{}1", x), format!("s{}11", x), format!("{}{}", x, unit)];
            check(&seq.iter().collect::<Vec<_>>(), &msgs, &all_routes(), l)?;
        }
        Ok(())
    })
}

fn families(tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let pool: Vec<Tokens> = vec![
        vec![lit("a")], vec![lit("ab")], vec![lit("a"), int("n")], vec![lit("a"), int("m")], vec![int("n")], vec![int("")], vec![set("ab", "s")], vec![set("ab", "s"), lit("1")], vec![greedy("g")], vec![lit("a"), greedy("g")],
        vec![greedy("g"), lit("b")], vec![lit("é")], vec![int_min("n", Some(2), Some(2))], vec![lit("a"), set_min("b1", "s", None, Some(1)), lit("é")],
    ].into_iter().map(link_greedy).collect();
    let mut msgs = all_strings(&['a', 'b', '1'], 3);
    msgs.extend(["é", "abé", "a1é", "éb", "11", "a%{"].iter().map(|x| x.to_string()));
    vec![
        sequences("sequences", pool.clone(), msgs.clone(), if quick { 3 } else { 4 }),
        sequences("literals", vec![vec![lit("a")], vec![lit("ab")], vec![lit("abc")], vec![lit("b")], vec![lit("é")], vec![lit("è")]], all_strings(&['a', 'b', 'c', 'é', 'è'], 3), if quick { 3 } else { 4 }),
        sequences("parsers", vec![vec![int("n")], vec![int("m")], vec![set("1a", "s")], vec![greedy("g")], vec![lit("1"), int("n")]], all_strings(&['1', 'a'], 4), if quick { 4 } else { 5 }),
        shapes(quick),
        blanks(quick),
        lists(ladder(if quick { 12 } else { 140 }, if quick { 260 } else { 1100 })),
        lengths(ladder(if quick { 20 } else { 140 }, if quick { 2100 } else { 70000 })),
    ]
}

fn build_check(p: &str, tier: Tier) -> Option<Check> {
    let _ = (TokenType::Literal(String::new()), arr(&[]));
    logcap::set_level(LogLevelFilter::Error);
    if p != "C25" {
        return None;
    }
    Some(Check {
        property: p.to_owned(),
        families: families(tier),
        rule: "two executions differ in the answers of the reference route to the messages of the bound".to_owned(),
        assumptions: vec![
            "the reference is the same matcher filled with compiled patterns through add_pattern; what that answers is judged by C01 to C03".to_owned(),
            "Pattern::with_uuid and set_pattern give no name, tags or additional values; there only pattern and parsed values are compared".to_owned(),
        ],
    })
}

fn main() {
    engine::main(build_check)
}
