//! Bounded spaces of (sequence of added patterns) x (message) and the comparison of a matcher with the model.

use crate::engine::{guard, violation, Family, Local, Outcome, Tier};
use crate::model::{self, greedy, int, link_greedy, lit, set, Tok, Tokens, Values};
use crate::routes;
use crate::real::{ask, new_matcher, pattern, uuid, Kind, Seen, KINDS};
use actiondb::matcher::pattern::testmessage::TestMessage;
use actiondb::matcher::Pattern;
use std::collections::BTreeMap;
use crate::strings::{all_strings, ladder, permutations};
use std::sync::Arc;

/// What a check looks at.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aspect {
    Sound,
    Complete,
    Precedence,
    Same,
}

pub struct Space {
    pub pats: Vec<Tokens>,
    pub msgs: Vec<String>,
    /// pattern x message
    pub table: Vec<Vec<Option<Values>>>,
    /// patterns as the pattern language produces them: no adjacent literals, linked GREEDY
    pub shaped: bool,
    /// the ways the patterns get into the matcher, see `routes::ROUTES`
    pub routes: Vec<usize>,
}

impl Space {
    pub fn new(pats: Vec<Tokens>, msgs: Vec<String>, shaped: bool) -> Space {
        let table = pats.iter().map(|p| msgs.iter().map(|m| model::matches(p, m)).collect()).collect();
        Space { pats, msgs, table, shaped, routes: vec![0] }
    }

    /// The same by these ways instead of adding the patterns one by one.
    pub fn by(mut self, routes: &[usize]) -> Space {
        self.routes = routes.to_vec();
        self
    }

    pub fn script(&self, kind: Kind, seq: &[usize], msg: Option<&str>) -> String {
        let mut s = format!("let mut m = new {:?} matcher\n", kind);
        for (id, &p) in seq.iter().enumerate() {
            s += &format!("m.add_pattern(#{} = {})   // {:?}\n", id, model::source(&self.pats[p]), self.pats[p]);
        }
        if let Some(m) = msg {
            s += &format!("m.parse({:?})\n", m);
        }
        s
    }

    /// Adds the patterns of `seq` in order, asks every message, judges the answers.
    pub fn run(&self, seq: &[usize], aspect: Aspect, l: &mut Local) -> Outcome {
        for &route in &self.routes {
            self.run_by(seq, route, aspect, l).map_err(|mut v| {
                if route >= DRESSED {
                    v.script = format!("{}what the patterns carry: {}\n", v.script, DRESSINGS[route - DRESSED]);
                } else if route != 0 {
                    v.script = format!("{}patterns got into the matcher by: {}\n", v.script, routes::ROUTES[route]);
                }
                v
            })?;
        }
        Ok(())
    }

    fn run_by(&self, seq: &[usize], route: usize, aspect: Aspect, l: &mut Local) -> Outcome {
        let mut built = vec![];
        for &kind in &KINDS {
            let r = guard(|| {
                if route == 0 {
                    let mut m = new_matcher(kind);
                    for (id, &p) in seq.iter().enumerate() {
                        m.add_pattern(pattern(id, &self.pats[p]));
                    }
                    return Some(m);
                }
                if route >= DRESSED {
                    let mut m = new_matcher(kind);
                    for (id, &p) in seq.iter().enumerate() {
                        m.add_pattern(dressed(route - DRESSED, id, seq.len(), &self.pats[p]));
                    }
                    return Some(m);
                }
                let specs: Vec<routes::Spec> = seq.iter().enumerate().map(|(id, &p)| routes::spec(self.pats[p].clone(), id)).collect();
                routes::build_kind(kind, &specs.iter().collect::<Vec<_>>(), route, l, &self.msgs).ok()
            });
            match r {
                Ok(Some(m)) => built.push(m),
                // whether a definition is accepted is not at issue here
                Ok(None) => return Ok(()),
                Err(e) => return violation(format!("adding patterns to the {:?} matcher panics: {}", kind, e), self.script(kind, seq, None)),
            }
        }
        l.states += KINDS.len() as u64;
        let toks: Vec<&Tokens> = seq.iter().map(|&p| &self.pats[p]).collect();
        for (mi, msg) in self.msgs.iter().enumerate() {
            let mut cands: Vec<usize> = vec![];
            for (i, &p) in seq.iter().enumerate() {
                if self.table[p][mi].is_some() {
                    cands.push(i);
                }
            }
            if aspect == Aspect::Complete && cands.is_empty() || aspect == Aspect::Precedence && cands.len() < 2 {
                continue;
            }
            let mut answers: Vec<Option<Seen>> = vec![];
            for (ki, &kind) in KINDS.iter().enumerate() {
                let a = match guard(|| ask(&*built[ki], msg)) {
                    Ok(a) => a.map(|mut s| {
                        if route >= DRESSED {
                            s.id = s.id.and_then(|u| (0..seq.len()).find(|&i| dressed_id(route - DRESSED, i, seq.len()) == u)).or(Some(usize::max_value()));
                        }
                        s
                    }),
                    Err(e) => return violation(format!("parse panics in the {:?} matcher: {}", kind, e), self.script(kind, seq, Some(msg))),
                };
                l.transitions += 1;
                match aspect {
                    Aspect::Sound => if let Some(ref s) = a {
                        let fine = s.id.map_or(false, |id| id < seq.len() && self.table[seq[id]][mi].as_ref() == Some(&s.values));
                        if !fine {
                            let exp = s.id.and_then(|id| seq.get(id)).map(|&p| self.table[p][mi].clone());
                            return violation(format!("{:?} matcher reports pattern #{:?} with values {:?}, but that pattern on its own gives {:?}", kind, s.id, s.values, exp),
                                             self.script(kind, seq, Some(msg)));
                        }
                    },
                    Aspect::Complete => if a.is_none() {
                        return violation(format!("{:?} matcher reports no match although pattern #{} alone consumes the message", kind, cands[0]),
                                         self.script(kind, seq, Some(msg)));
                    },
                    Aspect::Precedence => if let Some(ref s) = a {
                        let w = model::pick(&toks, &cands);
                        if s.id.map_or(true, |id| id != w && cands.contains(&id)) {
                            return violation(format!("{:?} matcher reports pattern #{:?}, the precedence rules require #{} (matching patterns: {:?})", kind, s.id, w, cands),
                                             self.script(kind, seq, Some(msg)));
                        }
                    },
                    Aspect::Same => {}
                }
                answers.push(a);
            }
            if aspect == Aspect::Same && answers[0] != answers[1] {
                return violation(format!("trie answers {:?}, suffix array answers {:?}", answers[0], answers[1]),
                                 self.script(Kind::Trie, seq, Some(msg)) + "and the same with the SuffixArray matcher\n");
            }
            l.traces += 1;
            if let Some(ref s) = answers[0] {
                l.outcome(&(s.id, &s.values, cands.len()));
                if cands.len() >= 2 || seq.len() == 1 {
                    l.sample(|| format!("patterns {:?} message {:?} -> #{:?} {:?}",
                                        seq.iter().map(|&p| model::source(&self.pats[p])).collect::<Vec<_>>(), msg, s.id, s.values));
                }
            } else {
                l.outcome(&(0u8, cands.len()));
            }
        }
        Ok(())
    }
}

/// Routes from here on: added one by one, carrying what `DRESSINGS` says.
pub const DRESSED: usize = 100;
pub const DRESSINGS: [&str; 10] = [
    "uuids in descending order", "uuids a program could treat specially", "the name of a parser as name, the parsers' names as keys of the values, all with the text 1, and as tags",
    "the same with the text a, without a name, with a test message", "the first, third .. have everything, the others nothing", "the first, third .. have nothing, the others everything; uuids descending",
    "everything there and empty", "one long name of multi-byte characters, the source of the pattern as value and tag", "name, one value and one tag are the text of the uuid", "all have equal name, values, tags and test messages",
];

/// The id (see `real::uuid`) of the i-th of n patterns.
fn dressed_id(dressing: usize, i: usize, n: usize) -> usize {
    match dressing {
        0 | 5 => n - 1 - i,
        1 => crate::real::SPECIAL + (i * 5 + 1) % crate::real::SPECIALS.len(),
        _ => i,
    }
}

fn dressed(dressing: usize, i: usize, n: usize, tokens: &Tokens) -> Pattern {
    let uuid = uuid(dressed_id(dressing, i, n));
    let names: Vec<String> = tokens.iter().filter_map(|t| t.name().map(|n| n.to_owned())).collect();
    let map = |v: &str| -> BTreeMap<String, String> { names.iter().map(|n| (n.clone(), v.to_owned())).collect() };
    let test = |m: &str| Some(vec![TestMessage::new(m.to_owned(), map("1"), Some(names.clone()))]);
    let one = |k: &str, v: &str| -> BTreeMap<String, String> { Some((k.to_owned(), v.to_owned())).into_iter().collect() };
    let full = |i: usize| -> (Option<String>, Option<Vec<TestMessage>>, Option<BTreeMap<String, String>>, Option<Vec<String>>) {
        (Some(format!("pattern {}", i)), test("a1"), Some(one("k", "v")), Some(vec!["t".to_owned(), format!("u{}", i)]))
    };
    let none = (None, None, None, None);
    let (name, tests, values, tags) = match dressing {
        2 => (names.last().cloned(), None, Some(map("1")), Some(names.clone())),
        3 => (None, test("1"), Some(map("a")), Some(names.clone())),
        4 => if i % 2 == 0 { full(i) } else { none },
        5 => if i % 2 == 1 { full(i) } else { none },
        6 => (Some(String::new()), Some(vec![]), Some(BTreeMap::new()), Some(vec![])),
        7 => (Some("n\u{e9}\u{20ac}\u{1f600}".repeat(40)), None, Some(one(&model::source(tokens), &model::source(tokens))), Some(vec![model::source(tokens)])),
        8 => { let u = uuid.to_string(); (Some(u.clone()), None, Some(one(&u, &u)), Some(vec![u])) }
        9 => full(0),
        _ => none,
    };
    Pattern::new(name, uuid, crate::real::compiled(tokens), tests, values, tags)
}

/// Answers must not depend on what the patterns carry along.
fn dressings(aspect: Aspect, tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let all: Vec<usize> = (0..DRESSINGS.len()).map(|d| DRESSED + d).collect();
    let p = shaped(&["a", "1"], &[int("x"), set("1a", "y"), greedy("g"), int("")], if quick { 2 } else { 3 });
    let mut f = vec![];
    f.push(sequences("dressed-pairs", Space::new(p, all_strings(&['a', '1', '-'], if quick { 3 } else { 4 }), true).by(&all), 2,
                     &format!("all patterns of up to {} tokens over literals a, 1 and INT, SET, GREEDY and an INT without a name, carrying {} combinations of uuids, names, values, tags and test messages", if quick { 2 } else { 3 }, all.len()), aspect));
    let p = shaped(&["a", "a1"], &[int("x"), set("1a", "y"), greedy("g")], 2);
    f.push(sequences("dressed-triples", Space::new(p, all_strings(&['a', '1'], if quick { 3 } else { 4 }), true).by(&all), 3,
                     &format!("all patterns of up to 2 tokens over literals a, a1 and INT, SET, GREEDY, carrying {} combinations of uuids, names, values, tags and test messages", all.len()), aspect));
    f
}

/// All grammar-shaped token sequences with 1..=max tokens.
pub fn shaped(lits: &[&str], parsers: &[Tok], max: usize) -> Vec<Tokens> {
    let toks: Vec<Tok> = lits.iter().map(|l| lit(l)).chain(parsers.iter().cloned()).collect();
    let mut out = vec![];
    let mut level: Vec<Tokens> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for p in &level {
            for t in &toks {
                if t.is_lit() && p.last().map_or(false, |x| x.is_lit()) {
                    continue;
                }
                let mut q = p.clone();
                q.push(t.clone());
                next.push(q);
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    let mut linked: Vec<Tokens> = out.into_iter().map(link_greedy).collect();
    linked.dedup();
    linked
}

pub fn int_min(name: &str, min: Option<usize>, max: Option<usize>) -> Tok {
    match int(name) {
        Tok::Int { name, .. } => Tok::Int { name, min, max },
        _ => unreachable!(),
    }
}
/// INT with the empty name, which is not the same as no name.
pub fn named_empty() -> Tok {
    Tok::Int { name: Some(String::new()), min: None, max: None }
}
pub fn set_min(chars: &str, name: &str, min: Option<usize>, max: Option<usize>) -> Tok {
    match set(chars, name) {
        Tok::Set { name, set, .. } => Tok::Set { name, set, min, max },
        _ => unreachable!(),
    }
}

/// All ordered sequences (with repetition) of exactly `k` patterns of the space.
pub fn sequences(name: &str, space: Space, k: usize, what: &str, aspect: Aspect) -> Family {
    let n = space.pats.len() as u64;
    let bound = format!("all {}-sequences (with repetition) of {} patterns ({}) x all {} messages, both matchers", k, n, what, space.msgs.len());
    // an item fixes the first patterns, the rest is enumerated inside
    let fixed = if k >= 3 { k - 1 } else { 1 };
    let items = n.pow(fixed as u32);
    let space = Arc::new(space);
    Family::new(name, bound, items, move |item, l| {
        let mut seq = vec![0usize; k];
        let mut x = item;
        for i in (0..fixed).rev() {
            seq[i] = (x % n) as usize;
            x /= n;
        }
        let inner = n.pow((k - fixed) as u32);
        for j in 0..inner {
            let mut x = j;
            for i in (fixed..k).rev() {
                seq[i] = (x % n) as usize;
                x /= n;
            }
            space.run(&seq, aspect, l)?;
        }
        Ok(())
    })
}

/// All insertion orders of every subset (of exactly `r` patterns) of the pool.
pub fn orders(name: &str, space: Space, r: usize, what: &str, aspect: Aspect) -> Family {
    fn subsets(n: usize, r: usize) -> Vec<Vec<usize>> {
        let mut out = vec![];
        for mask in 0u32..(1 << n) {
            if mask.count_ones() as usize == r {
                out.push((0..n).filter(|i| mask & (1 << i) != 0).collect());
            }
        }
        out
    }
    let n = space.pats.len();
    let subs = subsets(n, r);
    let perms = permutations(r);
    let bound = format!("all {} insertion orders of all {} subsets of {} of {} patterns ({}) x all {} messages, both matchers",
                        perms.len(), subs.len(), r, n, what, space.msgs.len());
    let items = subs.len() as u64 * r as u64;
    Family::new(name, bound, items, move |item, l| {
        let sub = &subs[(item / r as u64) as usize];
        let first = (item % r as u64) as usize;
        for p in perms.iter().filter(|p| p[0] == first) {
            let seq: Vec<usize> = p.iter().map(|&i| sub[i]).collect();
            space.run(&seq, aspect, l)?;
        }
        Ok(())
    })
}

/// A fixed list of (patterns in insertion order, messages).
pub fn listed(name: &str, bound: String, cases: Vec<(Vec<Tokens>, Vec<String>)>, shaped: bool, aspect: Aspect) -> Family {
    listed_by(name, bound, cases, shaped, aspect, &[0])
}

pub fn listed_by(name: &str, bound: String, cases: Vec<(Vec<Tokens>, Vec<String>)>, shaped: bool, aspect: Aspect, routes: &[usize]) -> Family {
    let routes = routes.to_vec();
    let items = cases.len() as u64;
    let cases: Vec<(Vec<Tokens>, Vec<String>)> = cases;
    Family::new(name, bound, items, move |item, l| {
        let (ref pats, ref msgs) = cases[item as usize];
        // identical patterns share one entry of the table, ids are positions
        let space = Space::new(pats.clone(), msgs.clone(), shaped).by(&routes);
        let seq: Vec<usize> = (0..pats.len()).collect();
        space.run(&seq, aspect, l)
    })
}

const ABC1: [char; 3] = ['a', 'b', '1'];

pub fn base_parsers() -> Vec<Tok> {
    vec![int("x"), set("ab", "s"), greedy("g"), int_min("y", Some(2), None)]
}

/// The spaces that the soundness, completeness, precedence and equivalence checks explore.
pub fn core(aspect: Aspect, tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let mut f = vec![];
    let p3 = shaped(&["a", "b", "ab", "1"], &base_parsers(), 3);
    f.push(sequences("dense-pairs", Space::new(p3, all_strings(&ABC1, 4), true), 2,
                     "all patterns of up to 3 tokens over literals a,b,ab,1 and INT, SET, GREEDY, INT(min_len=2)", aspect));
    let p2 = shaped(&["a", "ab", "b"], &[int("x"), set("ab", "s"), greedy("g")], 2);
    f.push(sequences("dense-triples", Space::new(p2, all_strings(&ABC1, 4), true), 3,
                     "all patterns of up to 2 tokens over literals a,ab,b and INT, SET, GREEDY", aspect));
    let p2 = shaped(&["a", "ab"], &[int("x"), greedy("g")], 2);
    f.push(sequences("dense-quads", Space::new(p2, all_strings(&ABC1, 4), true), 4,
                     "all patterns of up to 2 tokens over literals a,ab and INT, GREEDY", aspect));
    // names, limits and duplicates: parsers that differ in one setting only
    let p = shaped(&["a", "1"], &[int("x"), int("y"), int(""), named_empty(), int_min("x", Some(2), None), int_min("x", None, Some(1)), set("0123456789", "x"), set("1", "x"), set("a1", "x"), greedy("x")], 2);
    f.push(sequences("settings-pairs", Space::new(p, all_strings(&['a', '1'], 5), true), 2,
                     "all patterns of up to 2 tokens over literals a,1 and ten parsers that differ in kind, name (none, empty, x, y), limits or set only", aspect));
    // repeated names along one pattern
    let p = shaped(&["a"], &[int("x"), set("a", "x"), set("a", "y"), greedy("x"), greedy(""), named_empty()], 3);
    f.push(sequences("names-pairs", Space::new(p, all_strings(&['a', '1'], 5), true), 2,
                     "all patterns of up to 3 tokens over literal a and six parsers that share names or have none or the empty one", aspect));
    // multi-byte characters that share lead bytes
    let p = shaped(&["é", "è", "€", "₭", "😀", "é€", "éa", "a"], &[set("éa", "s"), set("€😁", "t"), greedy("g"), int("i")], 2);
    f.push(sequences("utf8-pairs", Space::new(p, all_strings(&['é', 'è', '€', '₭', '😀', '😁', 'a'], 3), true), 2,
                     "all patterns of up to 2 tokens over literals of 1- to 4-byte characters with shared lead bytes, SET, GREEDY, INT", aspect));
    let p = shaped(&["éé", "éè", "é", "è€", "è₭", "aé", "aè"], &[greedy("g")], 1);
    let msgs: Vec<String> = all_strings(&['é', 'è', '€', '₭', 'a'], 3);
    f.push(sequences("utf8-triples", Space::new(p, msgs, true), 3, "literals of multi-byte characters with shared prefixes and lead bytes, GREEDY", aspect));
    // odd characters
    let p = shaped(&[" ", "\n", "\u{0}", "A", "a", "%", "{", "\\", "\t", "a ", " a"], &[greedy("g"), set(" \n", "s")], 2);
    f.push(sequences("odd-pairs", Space::new(p, all_strings(&[' ', '\n', '\u{0}', 'A', 'a', '%', '{', '\\'], 3), true), 2,
                     "all patterns of up to 2 tokens over blanks, line breaks, NUL, case variants and pattern-syntax characters", aspect));
    // characters that a normalisation could drop or fold, around and inside what parsers take
    let p = shaped(&[" ", "a", "\n"], &[int("x"), set("a", "s"), greedy("g")], 2);
    f.push(sequences("fold-pairs", Space::new(p, all_strings(&['1', 'a', 'A', ' ', '\n', '\t', '\r', '\u{0}', '\u{a0}', '\u{3000}', '.', '-', '+', '_', '\u{e9}', '\u{feff}', '\u{663}'], 3), true), 2,
                     "all patterns of up to 2 tokens over blank, a, line break, INT, SET, GREEDY; messages over 17 characters that trimming, case folding or number parsing could treat alike", aspect));
    // insertion orders of literals and literal+parser
    let lits: Vec<Tokens> = ["a", "ab", "abc", "abd", "b", "ba", "c"].iter().map(|l| vec![lit(l)]).collect();
    f.push(orders("literal-orders", Space::new(lits, all_strings(&['a', 'b', 'c', 'd'], 4), true), if quick { 5 } else { 7 }, "nested and branching literals", aspect));
    let mut mixed: Vec<Tokens> = ["a", "ab", "abc", "b"].iter().map(|l| vec![lit(l), int("x")]).collect();
    mixed.push(vec![lit("ab")]);
    mixed.push(vec![int("x")]);
    mixed.push(vec![lit("a"), set("bc", "s")]);
    mixed.push(link_greedy(vec![greedy("g"), lit("b"), int("z")]));
    f.push(orders("mixed-orders", Space::new(mixed, all_strings(&['a', 'b', 'c', '1'], 4), true), if quick { 5 } else { 6 }, "nested literals followed by parsers", aspect));
    f.push(splits(aspect, tier));
    f.push(stems(aspect));
    f.extend(scale(aspect, tier));
    f.extend(ways(aspect, tier));
    f.extend(dressings(aspect, tier));
    f.push(name_relations(aspect));
    f.push(name_spellings(aspect, tier));
    f.push(code_points(aspect, tier));
    if aspect == Aspect::Sound || aspect == Aspect::Complete {
        // patterns only the API can build: adjacent literals, GREEDY with an unrelated end string
        let toks = [lit("a"), lit("b"), lit("ab"), lit(""), int("x"), Tok::Greedy { name: Some("g".to_owned()), end: Some("b".to_owned()) }, greedy("h")];
        let mut pool: Vec<Tokens> = vec![];
        for a in &toks {
            pool.push(vec![a.clone()]);
            for b in &toks {
                pool.push(vec![a.clone(), b.clone()]);
                for c in &toks {
                    pool.push(vec![a.clone(), b.clone(), c.clone()]);
                }
            }
        }
        f.push(sequences("api-pairs", Space::new(pool, all_strings(&ABC1, if quick { 3 } else { 4 }), false), 2,
                         "all sequences of up to 3 of 7 tokens, adjacent and empty literals and unlinked GREEDY included", aspect));
    }
    let p3 = shaped(&["a", "b", "ab", "aa", "ba", "1"], &base_parsers(), 3);
    f.push(sequences("dense-pairs-5", Space::new(p3, all_strings(&ABC1, 5), true), 2,
                     "all patterns of up to 3 tokens over literals a,b,ab,aa,ba,1 and INT, SET, GREEDY, INT(min_len=2)", aspect));
    let p4 = shaped(&["a", "ab"], &[int("x"), set("ab", "s"), greedy("g")], 4);
    f.push(sequences("long-pairs", Space::new(p4, all_strings(&ABC1, 5), true), 2,
                     "all patterns of up to 4 tokens over literals a,ab and INT, SET, GREEDY", aspect));
    let p2 = shaped(&["a", "b", "ab", "aba"], &base_parsers(), 2);
    f.push(sequences("dense-triples-5", Space::new(p2, all_strings(&ABC1, 5), true), 3,
                     "all patterns of up to 2 tokens over literals a,b,ab,aba and INT, SET, GREEDY, INT(min_len=2)", aspect));
    let p = shaped(&["a", "ab", "b"], &[int("x"), set("ab", "s")], 3);
    f.push(sequences("deep-triples", Space::new(p, all_strings(&ABC1, 4), true), 3,
                     "all patterns of up to 3 tokens over literals a,ab,b and INT, SET", aspect));
    let p = shaped(&["é", "è", "€", "₭", "😀", "é€", "éa", "a"], &[set("éa", "s"), greedy("g")], 2);
    f.push(sequences("utf8-triples-2", Space::new(p, all_strings(&['é', 'è', '€', '₭', '😀', 'a'], 3), true), 3,
                     "patterns of up to 2 tokens over multi-byte literals, SET, GREEDY", aspect));
    if !quick {
        let p2 = shaped(&["a", "ab"], &[int("x"), greedy("g")], 2);
        f.push(sequences("dense-quints", Space::new(p2.clone(), all_strings(&ABC1, 4), true), 5,
                         "all patterns of up to 2 tokens over literals a,ab and INT, GREEDY", aspect));
        let p = shaped(&["a", "ab", "b"], &[int("x"), set("ab", "s"), greedy("g")], 2);
        f.push(sequences("wide-quads", Space::new(p, all_strings(&ABC1, 5), true), 4,
                         "all patterns of up to 2 tokens over literals a,ab,b and INT, SET, GREEDY", aspect));
        let p = shaped(&["a", "ab", "b"], &[int("x"), set("ab", "s"), greedy("g")], 3);
        f.push(sequences("deep-triples-greedy", Space::new(p, all_strings(&ABC1, 4), true), 3,
                         "all patterns of up to 3 tokens over literals a,ab,b and INT, SET, GREEDY", aspect));
        let p = shaped(&["a", "ab"], &[int("x"), set("ab", "s"), greedy("g")], 5);
        f.push(sequences("longer-pairs", Space::new(p, all_strings(&ABC1, 4), true), 2,
                         "all patterns of up to 5 tokens over literals a,ab and INT, SET, GREEDY", aspect));
        f.push(sequences("dense-sixes", Space::new(p2, all_strings(&ABC1, 3), true), 6,
                         "all patterns of up to 2 tokens over literals a,ab and INT, GREEDY", aspect));
    }
    f
}

/// The other ways into a matcher: texts, builders, definitions, files, sources, clones.
fn ways(aspect: Aspect, tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let all: Vec<usize> = (1..routes::ROUTES.len()).collect();
    let cheap = [1, 4, 7, 17, 18, 19, 20, 21];
    let mut f = vec![];
    let parsers = [int("x"), int("y"), int(""), int_min("x", Some(2), None), set("1a", "x"), set("12", ""), greedy("x"), greedy("")];
    let p = shaped(&["a", "1"], &parsers, 2);
    f.push(sequences("ways-pairs", Space::new(p, all_strings(&['a', '1'], 3), true).by(&all), 2,
                     &format!("all patterns of up to 2 tokens over literals a,1 and 8 parsers that differ in kind, name, limits, each pair by {} ways into the matcher", all.len()), aspect));
    let p = shaped(&["a"], &[int("x"), int(""), set("1a", "s"), greedy("g")], 2);
    f.push(sequences("ways-triples", Space::new(p, all_strings(&['a', '1'], 3), true).by(if quick { &cheap } else { &all }), 3,
                     "all patterns of up to 2 tokens over literal a and 4 parsers, by the other ways into the matcher", aspect));
    let p = shaped(&["a", "ab", "\u{e9}", "\u{e8}", " ", "\n"], &[int("x"), greedy("g")], 2);
    f.push(sequences("ways-literals", Space::new(p, all_strings(&['a', 'b', '1', '\u{e9}', ' ', '\n'], 3), true).by(if quick { &cheap } else { &all }), 2,
                     "all patterns of up to 2 tokens over nested, multi-byte and blank literals, INT and GREEDY, by the other ways into the matcher", aspect));
    // many patterns
    let mut cases = vec![];
    let ns = if quick { ladder(20, 130) } else { ladder(70, 520) };
    for &n in &ns {
        let lits: Vec<Tokens> = (0..n).map(|i| vec![lit(&format!("key{}", i)), int("x")]).collect();
        let mut msgs: Vec<String> = (0..n + 1).map(|i| format!("key{}5", i)).collect();
        msgs.push("key".to_owned());
        cases.push((lits, msgs));
        let parsers: Vec<Tokens> = (0..n).map(|i| vec![lit("p"), if i % 3 == 1 { int_min("", Some(1 + i % 4), Some(1 + i)) } else { int_min(&format!("n{}", i), None, Some(1 + i)) }]).collect();
        let msgs: Vec<String> = (0..n + 2).map(|i| format!("p{}", "3".repeat(i))).collect();
        cases.push((parsers, msgs));
        let mut chain: Tokens = vec![];
        for i in 0..n {
            chain.push(lit(&format!("-{}", "a".repeat(i % 5))));
            chain.push(int(&format!("k{}", i)));
        }
        let msg: String = (0..n).map(|i| format!("-{}{}", "a".repeat(i % 5), i)).collect();
        cases.push((vec![chain], vec![msg.clone(), format!("{}-", msg), msg[..msg.len() - 1].to_owned()]));
    }
    f.push(listed_by("ways-scale", format!("{} sizes up to {}: literals with a common stem, parsers side by side, chains; by the other ways into the matcher", ns.len(), ns[ns.len() - 1]), cases, true, aspect, &[1, 2, 3, 4, 6, 7, 10, 11, 17, 18, 19, 20]));
    f
}

/// Names that could be taken for one another.
fn name_relations(aspect: Aspect) -> Family {
    let names = ["", "a", "b", ".a", "a.", "..a", "a.b", "a.a", "_a", "a_", "-a", "A", "aa", "a1", "1", "a ", " a", "\u{e9}", "e\u{301}", "ab", "a\u{0}", "a:a", "a=a", "$a", "@a", "%{a}", "{a}", "message", "MESSAGE", ".message", "uuid", ".uuid", "name", "tags", "pattern", ".classifier.class", "__key__", "null", "\u{1F600}", "a\n"];
    let mut cases: Vec<(Vec<Tokens>, Vec<String>)> = vec![];
    let named = |t: Tok, n: &str| match t {
        Tok::Int { min, max, .. } => Tok::Int { name: Some(n.to_owned()), min, max },
        Tok::Set { set, min, max, .. } => Tok::Set { set, name: Some(n.to_owned()), min, max },
        Tok::Greedy { end, .. } => Tok::Greedy { name: Some(n.to_owned()), end },
        t => t,
    };
    let msgs: Vec<String> = ["1 2", "1 1", "12 3", " 2", "1 2 3", "7 7 7", "1"].iter().map(|x| x.to_string()).collect();
    for a in names.iter() {
        for b in names.iter() {
            let mut pats = vec![];
            for (x, y) in [(int(""), int("")), (greedy(""), int("")), (set("12", ""), greedy(""))].iter() {
                pats.push(vec![link_greedy(vec![named(x.clone(), a), lit(" "), named(y.clone(), b)])]);
            }
            pats.push(vec![vec![named(int(""), a), lit(" "), int(""), lit(" "), named(int(""), b)]]);
            pats.push(vec![vec![named(int(""), a), lit(" "), named(int(""), b), lit(" "), named(int(""), a)]]);
            // two patterns that differ in a name only: the one added first is reported
            pats.push(vec![vec![named(int(""), a)], vec![named(int(""), b)]]);
            pats.push(vec![vec![named(int(""), a), lit(" "), int("z")], vec![named(int(""), b), lit(" "), set("2", "z")], vec![named(int(""), a), lit(" "), int("z")]]);
            for p in pats {
                cases.push((p, msgs.clone()));
            }
        }
    }
    listed("name-relations", format!("all ordered pairs of {} names (dotted, case variants, prefixes of one another, blanks, words of the file format) in 7 arrangements of patterns", names.len()), cases, true, aspect)
}

/// All short names over the characters names are made of, one after the other and in pairs.
fn name_spellings(aspect: Aspect, tier: Tier) -> Family {
    let quick = tier == Tier::Quick;
    let long = all_strings(&['a', 'A', '.', '_', '0', '-'], if quick { 4 } else { 5 });
    let short = all_strings(&['a', 'B', '.', '_', '0'], 2);
    let mut cases: Vec<(Vec<Tokens>, Vec<String>)> = vec![];
    let msgs: Vec<String> = ["1", "1 2", "1 2 3", "x", "1 x"].iter().map(|x| x.to_string()).collect();
    let named = |n: &str| Tok::Int { name: Some(n.to_owned()), min: None, max: None };
    let free = |n: &str| Tok::Greedy { name: Some(n.to_owned()), end: None };
    for n in &long {
        cases.push((vec![vec![named(n)], vec![named(n), lit(" "), int("z")], vec![free(n)]], msgs.clone()));
    }
    for a in &short {
        for b in &short {
            for stem in ["", "ab", "a.b"] {
                let (a, b) = (format!("{}{}", stem, a), format!("{}{}", stem, b));
                cases.push((vec![vec![named(&a), lit(" "), named(&b)], vec![named(&b)], vec![named(&a), lit(" "), free(&b)]], msgs.clone()));
            }
        }
    }
    listed("name-spellings", format!("all {} names of up to {} characters over a A . _ 0 -, all pairs of {} endings behind 3 stems, in 3 arrangements", long.len(), if quick { 4 } else { 5 }, short.len()), cases, true, aspect)
}

/// Literals whose characters lie at the ends of the ranges in which encodings order or measure them differently.
fn code_points(aspect: Aspect, tier: Tier) -> Family {
    let quick = tier == Tier::Quick;
    let chars: Vec<char> = "a\u{7f}\u{80}\u{e9}\u{7ff}\u{800}\u{d7ff}\u{e000}\u{feff}\u{ffff}\u{10000}\u{10061}\u{1f600}\u{10ffff}".chars().collect();
    let mut pool: Vec<Tokens> = chars.iter().map(|c| vec![lit(&c.to_string())]).collect();
    pool.extend(chars.iter().map(|c| vec![lit(&format!("{}k", c)), int("x")]));
    pool.extend(chars.iter().map(|c| vec![lit(&format!("k{}", c))]));
    let mut msgs: Vec<String> = chars.iter().flat_map(|c| vec![c.to_string(), format!("{}k", c), format!("{}k7", c), format!("k{}", c), format!("{}7", c), format!("{}{}", c, c)]).collect();
    msgs.push("k".to_owned());
    let space = Space::new(pool, msgs, true);
    let n = space.pats.len();
    let m = chars.len();
    let k = if quick { 3 } else { 4 };
    let bound = format!("{} characters at the ends of the ranges of 1 to 4 bytes and around the surrogates: all ordered triples of the literals c, of the literals kc, of the patterns ck%{{INT:x}} (thorough: all ordered quadruples of each), all pairs of all {} x {} messages", m, n, space.msgs.len());
    Family::new("code-points", bound, n as u64, move |item, l| {
        let i = item as usize;
        for j in 0..n {
            space.run(&[i, j], aspect, l)?;
        }
        let base = i / m * m;
        for j in base..base + m {
            for x in base..base + m {
                if i == j || i == x || j == x {
                    continue;
                }
                space.run(&[i, j, x], aspect, l)?;
                if k == 4 {
                    for y in (base..base + m).filter(|y| *y != i && *y != j && *y != x) {
                        space.run(&[i, j, x, y], aspect, l)?;
                    }
                }
            }
        }
        Ok(())
    })
}

/// A stem literal with two (thorough: three) different continuations, split by another literal before, between
/// or after their insertions, at every cut of the stem.
fn splits(aspect: Aspect, tier: Tier) -> Family {
    let quick = tier == Tier::Quick;
    let mut tails: Vec<Tokens> = vec![vec![]];
    let parsers = [int("x"), int("y"), set("12", "s"), greedy("g")];
    for p in &parsers {
        tails.push(vec![p.clone()]);
        for q in [lit("!"), lit("1"), set("!a", "t"), greedy("h")] {
            tails.push(vec![p.clone(), q]);
        }
        if !quick {
            tails.push(vec![p.clone(), lit("!"), int("z")]);
            tails.push(vec![p.clone(), lit("!"), set("12", "z")]);
        }
    }
    let ends = ["", "1", "12", "1!", "12!", "1a", "!", "11", "1!1", "2"];
    let mut cases: Vec<(Vec<Tokens>, Vec<String>)> = vec![];
    for (stem, cutters) in [("ab", vec!["a", "ac", "abc", "b", "ab1"]), ("\u{e9}\u{e8}", vec!["\u{e9}", "\u{e9}\u{ea}", "\u{e9}\u{e8}\u{e8}", "\u{c3}"]), ("abcd", vec!["a", "ab", "abc", "abce", "abe", "ae"])] {
        for (i, a) in tails.iter().enumerate() {
            for (j, b) in tails.iter().enumerate() {
                if i == j {
                    continue;
                }
                for c in &cutters {
                    // where the literal that splits comes in, with and without a continuation of its own
                    for at in 0..3 {
                        for own in [false, true] {
                            let with = |t: &Tokens| { let mut v = vec![lit(stem)]; v.extend(t.iter().cloned()); link_greedy(v) };
                            let mut pats = vec![with(a), with(b)];
                            pats.insert(at, if own { vec![lit(c), set("12!", "w")] } else { vec![lit(c)] });
                            if !quick {
                                // a second split, above the first one
                                pats.push(vec![lit(&stem.chars().take(1).collect::<String>()), int("v")]);
                            }
                            let mut msgs: Vec<String> = ends.iter().map(|e| format!("{}{}", stem, e)).collect();
                            msgs.push(c.to_string());
                            msgs.push(format!("{}1", c));
                            cases.push((pats, msgs));
                        }
                    }
                }
            }
        }
    }
    let bound = format!("3 stems x all ordered pairs of {} continuations (none, 4 parsers, each with literals and parsers behind) x 4 to 6 literals that split the stem, inserted before, between and after, with and without a continuation x {} messages", tails.len(), ends.len() + 2);
    listed("splits", bound, cases, true, aspect)
}

/// Nested literals whose joints are characters of every length in bytes: each character in turn ends, continues
/// and starts the literal another one is split off from.
fn stems(aspect: Aspect) -> Family {
    let chars: Vec<char> = "a1 %\u{0}\u{7f}\u{80}\u{a0}\u{e9}\u{7ff}\u{800}\u{fff}\u{20ac}\u{3000}\u{d7ff}\u{e000}\u{feff}\u{ffff}\u{10000}\u{1f600}\u{1f601}\u{3ffff}\u{40000}\u{10ffff}".chars().collect();
    let tails: Vec<Tokens> = vec![vec![], vec![int("x")], vec![set("yz", "s")], vec![greedy("g")]];
    let spaces: Vec<Space> = chars.iter().map(|&c| {
        let stems = [format!("k{}", c), format!("k{}w", c), format!("k{}{}", c, c), format!("{}w", c), "k".to_owned(), format!("{}", c)];
        let pool: Vec<Tokens> = stems.iter().flat_map(|s| tails.iter().map(move |t| { let mut v = vec![lit(s)]; v.extend(t.iter().cloned()); link_greedy(v) })).collect();
        let mut msgs: Vec<String> = stems.iter().flat_map(|s| ["", "7", "yz", "w7", "!"].iter().map(move |e| format!("{}{}", s, e))).collect();
        msgs.sort();
        msgs.dedup();
        Space::new(pool, msgs, true)
    }).collect();
    let n = spaces[0].pats.len();
    let bound = format!("{} characters c of 1 to 4 bytes (both ends of each length, blanks, controls) x all ordered pairs and triples (with repetition) of the literals kc, kcw, kcc, cw, k, c, each alone and followed by INT, SET, GREEDY x about 25 messages", chars.len());
    Family::new("stems", bound, (chars.len() * n) as u64, move |item, l| {
        let space = &spaces[item as usize / n];
        let i = item as usize % n;
        for j in 0..n {
            space.run(&[i, j], aspect, l)?;
            for k in 0..n {
                space.run(&[i, j, k], aspect, l)?;
            }
        }
        Ok(())
    })
}

/// Insertion orders used on long lists of patterns.
fn some_orders(n: usize) -> Vec<(String, Vec<usize>)> {
    let mut v = vec![("ascending".to_owned(), (0..n).collect::<Vec<_>>()), ("descending".to_owned(), (0..n).rev().collect())];
    for stride in [7usize, 13, 61] {
        let mut s = stride;
        while gcd(s, n) != 1 {
            s += 1;
        }
        v.push((format!("stride {}", s), (0..n).map(|i| (i * s) % n).collect()));
    }
    // inside out
    let mut io = vec![];
    for i in 0..n {
        io.push(if i % 2 == 0 { n / 2 + i / 2 } else { n / 2 - 1 - i / 2 });
    }
    io.retain(|&x| x < n);
    let mut seen = vec![false; n];
    io.retain(|&x| !std::mem::replace(&mut seen[x], true));
    for i in 0..n {
        if !seen[i] {
            io.push(i);
        }
    }
    v.push(("inside out".to_owned(), io));
    v
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// Ladders over sizes: every size in a range for one shape, so that limits, counters and thresholds show.
pub fn scale(aspect: Aspect, tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let mut f = vec![];

    // n literals that differ in the first character / in the last character / nested
    let shapes: Vec<(&str, fn(usize) -> String)> = vec![
        ("distinct first character", |i| format!("{}k", std::char::from_u32(0x21 + i as u32 + if i >= 0x5e { 0x80 } else { 0 }).unwrap())),
        ("common stem, three digits", |i| format!("key{:03}", i)),
        ("nested a, aa, aaa", |i| "a".repeat(i + 1)),
        ("binary tree", |i| format!("{:b}", i + 1).replace('0', "a").replace('1', "b")),
    ];
    let mut cases = vec![];
    let sizes: Vec<usize> = if quick { (1..=40).chain([63, 64, 65, 127, 128, 129, 200, 255, 256, 257]).collect() } else { (1..=300).collect() };
    for (_, g) in &shapes {
        for &n in &sizes {
            for (_, order) in some_orders(n) {
                for with_int in [false, true] {
                    let lits: Vec<String> = (0..n).map(|i| g(i)).collect();
                    let mut pats: Vec<Tokens> = order.iter().map(|&i| if with_int { vec![lit(&lits[i]), int("x")] } else { vec![lit(&lits[i])] }).collect();
                    if n % 3 == 0 {
                        pats.insert(n / 2, link_greedy(vec![greedy("rest")]));
                    }
                    let mut msgs: Vec<String> = vec![String::new(), "zz".to_owned()];
                    for l in &lits {
                        let m = if with_int { format!("{}42", l) } else { l.clone() };
                        msgs.push(m.clone());
                        if n <= 40 {
                            msgs.push(format!("{}!", m));
                            let mut cut = m.clone();
                            cut.pop();
                            msgs.push(cut);
                        }
                    }
                    cases.push((pats, msgs));
                }
            }
        }
    }
    let bound = format!("{} sizes up to {} x 4 shapes of literal sets (distinct first character, common stem, nested, binary tree) x 6 insertion orders x with and without a following INT, some with GREEDY: every literal, every literal with one character more or less",
                        sizes.len(), sizes[sizes.len() - 1]);
    f.push(listed("scale-literals", bound, cases, true, aspect));

    // long literals, chains of tokens, many parsers at one place
    let mut cases = vec![];
    let lens: Vec<usize> = if quick { (1..=66).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 65535, 65536, 65537]).collect() }
                           else { (1..=1100).chain([2047, 2048, 2049, 4095, 4096, 4097, 65535, 65536, 65537, 131072]).collect() };
    for &n in &lens {
        let l = "ab".repeat(n / 2 + 1)[..n].to_owned();
        let mut other = l.clone();
        other.pop();
        other.push('c');
        let msgs = vec![l.clone(), format!("{}1", l), l[..n - 1].to_owned(), other.clone(), format!("{}1", other), "a".repeat(n), format!("{}a", l), "1".repeat(n), format!("{}{}", l, "7".repeat(n))];
        cases.push((vec![vec![lit(&l)]], msgs.clone()));
        cases.push((vec![vec![lit(&l)], vec![lit(&other)]], msgs.clone()));
        cases.push((vec![vec![lit(&other), int("x")], vec![lit(&l), int("y")]], msgs.clone()));
        cases.push((vec![vec![int("n")], vec![set("ab", "s")], vec![set("abc", "t")], vec![lit(&l), int("y")]], msgs.clone()));
        cases.push((vec![link_greedy(vec![greedy("g"), lit(&other)]), link_greedy(vec![greedy("g"), lit("1")])], msgs));
    }
    f.push(listed("scale-lengths", format!("literals, runs and messages of {} lengths up to {}", lens.len(), lens[lens.len() - 1]), cases, true, aspect));

    // one edit at every place of a long literal
    let mut cases = vec![];
    let lens: Vec<usize> = if quick { vec![9, 17, 33, 65, 72, 100, 129, 257, 300] } else { (4..=140).chain([255, 256, 257, 300, 511, 513, 1025]).collect() };
    for &n in &lens {
        let l: Vec<char> = "key=lorem ipsum; é ".chars().cycle().take(n).collect();
        let text: String = l.iter().collect();
        let mut msgs = vec![text.clone(), format!("{}1", text), format!("7{}", text), format!("x{}", text)];
        for i in 0..n {
            let mut push = |v: Vec<char>| {
                let s: String = v.into_iter().collect();
                msgs.push(format!("{}1", s));
                msgs.push(format!("7{}", s));
                msgs.push(s);
            };
            let edit = |f: &dyn Fn(&mut Vec<char>)| { let mut v = l.clone(); f(&mut v); v };
            push(edit(&|v| v[i] = 'X'));
            push(edit(&|v| v[i] = 'ê'));
            push(edit(&|v| { v.remove(i); }));
            push(edit(&|v| v.insert(i, v[i])));
            push(edit(&|v| { let j = (i + 1) % n; v.swap(i, j) }));
        }
        let mut mid = l.clone();
        mid[n / 2] = 'X';
        let mid: String = mid.into_iter().collect();
        cases.push((vec![vec![lit(&text)]], msgs.clone()));
        cases.push((vec![vec![lit(&text), int("y")], vec![lit(&mid)]], msgs.clone()));
        cases.push((vec![vec![int("y"), lit(&text)], vec![int("y"), lit(&mid)]], msgs.clone()));
        cases.push((vec![link_greedy(vec![greedy("g"), lit(&text)])], msgs));
    }
    f.push(listed("long-edits", format!("long literals of {} lengths up to {}: every message one edit away at every place, alone, before and after a number, behind a GREEDY, next to a literal that differs in the middle", lens.len(), lens[lens.len() - 1]), cases, true, aspect));

    let mut cases = vec![];
    let ns: Vec<usize> = if quick { (1..=70).chain([99, 100, 101, 127, 128, 129, 255, 256, 257, 512, 513]).collect() } else { (1..=520).chain([1000, 1001, 1024, 1025]).collect() };
    for &n in &ns {
        // a chain of n parsers with separators
        let mut chain = vec![];
        let mut msg = String::new();
        for i in 0..n {
            if i > 0 {
                chain.push(lit(":"));
                msg.push(':');
            }
            chain.push(int(&format!("k{}", i)));
            msg.push_str(&format!("{}", i));
        }
        let mut longer = chain.clone();
        longer.push(lit("!"));
        let mut shorter = chain.clone();
        shorter.pop();
        let msgs = vec![msg.clone(), format!("{}!", msg), format!("{}?", msg), msg[..msg.rfind(':').map_or(0, |p| p + 1)].to_owned(), msg[1..].to_owned(), msg.replacen(":", ";", 1)];
        cases.push((vec![chain.clone()], msgs.clone()));
        cases.push((vec![chain.clone(), longer.clone()], msgs.clone()));
        if n > 1 {
            cases.push((vec![longer.clone(), shorter, chain.clone()], msgs));
        }
        // n parsers at one place: names, limits
        let by_name: Vec<Tokens> = (0..n).map(|i| vec![int(&format!("n{}", i)), lit(&format!("-{}", i))]).collect();
        let msgs: Vec<String> = (0..n + 1).map(|i| format!("5-{}", i)).collect();
        cases.push((by_name.clone(), msgs.clone()));
        cases.push((by_name.into_iter().rev().collect(), msgs));
        let by_limit: Vec<Tokens> = (0..n).map(|i| vec![int_min("v", Some(i + 1), Some(i + 1))]).collect();
        let msgs: Vec<String> = (0..n + 2).map(|i| "3".repeat(i)).collect();
        cases.push((by_limit.clone(), msgs.clone()));
        cases.push((by_limit.into_iter().rev().collect(), msgs));
        // n literals below one parser, n parsers below one literal
        let below: Vec<Tokens> = (0..n).map(|i| vec![lit("p"), int("x"), lit(&format!("/{}/", i)), set("abc", "s")]).collect();
        let msgs: Vec<String> = (0..n + 1).flat_map(|i| vec![format!("p1/{}/abc", i), format!("p1/{}/", i)]).collect();
        cases.push((below, msgs));
        // the same pattern again and again
        let again: Vec<Tokens> = (0..n).map(|_| vec![lit("p"), int("x")]).collect();
        cases.push((again, vec!["p1".to_owned(), "p".to_owned()]));
    }
    f.extend(fallback(aspect, tier));
    f.push(listed("scale-tokens", format!("{} sizes up to {}: chains of parsers, parsers side by side with different names and limits, literals below one parser, repeated patterns", ns.len(), ns[ns.len() - 1]), cases, true, aspect));
    // very many at one place, asked for a few of them
    let mut cases: Vec<(Vec<Tokens>, Vec<String>)> = vec![];
    let chars: Vec<char> = (0x4e00..0x20000u32).filter_map(std::char::from_u32).take(70_000).collect();
    let many: Vec<usize> = if quick { vec![1023, 1024, 1025, 4096, 4097, 65_538] } else { vec![1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16_384, 16_385, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 65_538, 69_999] };
    for &n in &many {
        let some: std::collections::BTreeSet<usize> = [0, 1, 2, 3, 254, 255, 256, 257, n / 2, n - 3, n - 2, n - 1].iter().cloned().collect();
        // a trie is slow with very many first characters
        for shape in if n < 5000 || !quick { 0..3 } else { 1..3 } {
            let l = |i: usize| match shape { 0 => format!("{}k", chars[i]), 1 => format!("key{:05}", i), _ => format!("key{}", i) };
            let pats = |rev: bool| -> Vec<Tokens> {
                let mut v: Vec<Tokens> = (0..n).map(|i| if i % 2 == 0 { vec![lit(&l(i))] } else { vec![lit(&l(i)), set("x", "s")] }).collect();
                if rev {
                    v.reverse();
                }
                v
            };
            let mut msgs: Vec<String> = some.iter().flat_map(|&i| vec![l(i), format!("{}x", l(i)), format!("{}xy", l(i))]).collect();
            msgs.push(l(n));
            cases.push((pats(false), msgs.clone()));
            if n < 5000 || shape == 1 && !quick {
                cases.push((pats(true), msgs));
            }
        }
        if n < if quick { 1030 } else { 4100 } {
            let side: Vec<Tokens> = (0..n).map(|i| vec![int_min("v", Some(i + 1), Some(i + 1))]).collect();
            cases.push((side, some.iter().map(|&i| "3".repeat(i + 1)).chain(std::iter::once("3".repeat(n + 1))).collect()));
            let side: Vec<Tokens> = (0..n).map(|i| vec![lit("p"), set("x", &format!("n{}", i)), lit(&format!("-{}", i))]).collect();
            cases.push((side, some.iter().map(|&i| format!("pxx-{}", i)).chain(std::iter::once(format!("px-{}", n))).collect()));
            let mut twice: Vec<Tokens> = (0..n).map(|i| vec![set("x", &format!("n{}", i)), lit(&format!("-{}", i))]).collect();
            let again: Vec<Tokens> = some.iter().map(|&i| twice[i].clone()).collect();
            twice.extend(again);
            cases.push((twice, some.iter().map(|&i| format!("xx-{}", i)).collect()));
            let same: Vec<Tokens> = (0..n).map(|i| vec![lit("p"), set("x", &format!("n{}", i))]).collect();
            cases.push((same, vec!["px".to_owned(), "p".to_owned(), "pxy".to_owned()]));
            let again: Vec<Tokens> = (0..n).map(|i| vec![lit("p"), int(if i % 7 == 0 { "x" } else { "y" })]).collect();
            cases.push((again, vec!["p1".to_owned(), "p".to_owned()]));
        }
    }
    f.push(listed("scale-many", format!("{} sizes up to {}: so many literals at one place (distinct, with a common stem, of different lengths), up to about {} parsers at one place", many.len(), many[many.len() - 1], if quick { 1024 } else { 4096 }), cases, true, aspect));
    f
}

/// Ways that lead nowhere: n alternatives apply at a place (or at several places in a row) and fail later, one applies.
fn fallback(aspect: Aspect, tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let mut f = vec![];
    let ns = if quick { ladder(34, 300) } else { ladder(130, 1030) };
    let top = ns[ns.len() - 1];
    let mut cases: Vec<(Vec<Tokens>, Vec<String>)> = vec![];
    for &n in &ns {
        // nested literals a, aa, .. each continued by something that does not apply; the one at `good` applies
        for good in [1, 2, n / 2 + 1, n].iter().cloned().collect::<std::collections::BTreeSet<usize>>() {
            let mut pats: Vec<Tokens> = (1..=n).map(|i| vec![lit(&"a".repeat(i)), if i == good { set("ab", "s") } else { int("x") }]).collect();
            let msgs = vec!["a".repeat(n + 2), format!("{}b", "a".repeat(n)), format!("{}b", "a".repeat(n + 3)), format!("{}1", "a".repeat(n)), format!("{}1", "a".repeat(n + 1)), format!("{}b1", "a".repeat(n))];
            cases.push((pats.clone(), msgs.clone()));
            pats.reverse();
            cases.push((pats, msgs));
        }
        // one literal with n continuations, and a parser after the literal itself
        let cont = |i: usize| std::char::from_u32(0x3b1 + i as u32).unwrap();
        let all: String = (0..n).map(|i| cont(i)).collect();
        let mut pats: Vec<Tokens> = (0..n).map(|i| vec![lit(&format!("a{}x", cont(i)))]).collect();
        pats.push(vec![lit("a"), set(&all, "s")]);
        let mut msgs = vec!["a".to_owned()];
        for &i in &[0, n / 2, n - 1] {
            msgs.extend([format!("a{}", cont(i)), format!("a{}x", cont(i)), format!("a{}{}", cont(i), cont(0)), format!("a{}y", cont(i))]);
        }
        cases.push((pats.clone(), msgs.clone()));
        pats.reverse();
        cases.push((pats.clone(), msgs.clone()));
        // the same one token further to the right
        let deep: Vec<Tokens> = pats.iter().map(|p| { let mut q = vec![int("n")]; q.extend(p.iter().cloned()); q }).collect();
        cases.push((deep, msgs.iter().map(|m| format!("7{}", m)).collect()));
        // n parsers that apply and fail later, then one that applies; and the other way round
        let mut pats: Vec<Tokens> = (0..n).map(|i| vec![set("ab", &format!("s{}", i)), lit("!"), int("x")]).collect();
        pats.push(link_greedy(vec![greedy("g"), lit("!"), set("ab", "t")]));
        let msgs = vec!["ab!ab".to_owned(), "ab!1".to_owned(), "ab!".to_owned(), "1!a".to_owned(), "1!1".to_owned()];
        cases.push((pats.clone(), msgs.clone()));
        pats.reverse();
        cases.push((pats, msgs));
    }
    f.push(listed("scale-fallback", format!("{} sizes up to {}: that many nested literals, continuations of a literal or parsers apply and lead nowhere before another one applies; both orders, one token deeper too", ns.len(), top), cases, true, aspect));

    // ways that lead nowhere at every one of d places in a row
    let mut cases: Vec<(Vec<Tokens>, Vec<String>)> = vec![];
    let ds = if quick { 12 } else { 16 };
    for d in 1..=ds {
        // at each place: a literal, a longer literal and a parser could go on
        let mut pats: Vec<Tokens> = vec![];
        for i in 0..d {
            let mut head: Tokens = vec![];
            for j in 0..i {
                head.push(set("a", &format!("p{}", j)));
                head.push(lit("-"));
            }
            let mut x = head.clone();
            x.push(lit("a-"));
            x.push(int("x"));
            pats.push(x);
            let mut x = head.clone();
            x.push(lit("aa-"));
            x.push(int("y"));
            pats.push(x);
            let mut x = head.clone();
            x.push(set("ab", "q"));
            x.push(lit("-"));
            x.push(int("z"));
            pats.push(x);
        }
        let mut full: Tokens = vec![];
        for j in 0..d {
            full.push(set("a", &format!("p{}", j)));
            full.push(lit("-"));
        }
        full.push(lit("!"));
        pats.push({ let mut t = full.clone(); t.truncate(2 * d); t.pop(); t.push(lit("-!")); t });
        let msgs = vec![format!("{}!", "a-".repeat(d)), format!("{}!", "aa-".repeat(d)), format!("{}1", "a-".repeat(d)), format!("{}?", "a-".repeat(d)), "a-".repeat(d), format!("{}b-1", "a-".repeat(d - 1))];
        cases.push((pats.clone(), msgs.clone()));
        pats.reverse();
        cases.push((pats, msgs));
    }
    f.push(listed("scale-branches", format!("1 to {} places in a row, at each of which a literal, a longer literal and another parser apply and lead nowhere", ds), cases, true, aspect));
    f
}
