//! C19 C20 C21: sorted vector, common prefix, literal index of the trie.
use actiondb::matcher::trie::node::interface::Entry;
use actiondb::matcher::trie::node::SuffixTree;
use actiondb::matcher::Pattern;
use actiondb::utils::{CommonPrefix, SortedVec};
use mc::engine::{self, guard, violation, Check, Family, Local, Outcome, Tier};
use mc::real;
use mc::strings::{all_strings, permutations};
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::sync::Arc;

// ------------------------------------------------ C19

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Push(usize),
    Remove(usize),
}

/// An element that is compared by its key alone.
#[derive(Clone, Debug)]
struct Keyed {
    key: u8,
    tag: usize,
}
impl PartialEq for Keyed {
    fn eq(&self, o: &Keyed) -> bool { self.key == o.key }
}
impl Eq for Keyed {}
impl PartialOrd for Keyed {
    fn partial_cmp(&self, o: &Keyed) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for Keyed {
    fn cmp(&self, o: &Keyed) -> Ordering { self.key.cmp(&o.key) }
}

trait Elem: Ord + Clone + Debug + Send + Sync {
    /// distinguishes elements that compare as equal
    fn ident(&self) -> String;
}
impl Elem for u8 { fn ident(&self) -> String { self.to_string() } }
impl Elem for i64 { fn ident(&self) -> String { self.to_string() } }
impl Elem for String { fn ident(&self) -> String { self.clone() } }
impl Elem for Keyed { fn ident(&self) -> String { format!("{}/{}", self.key, self.tag) } }

/// Compares everything a sorted vector shows with the elements it must hold.
fn inspect<T: Elem>(v: &SortedVec<T>, held: &[T], needles: &[T]) -> Result<(), String> {
    let n = held.len();
    if v.len() != n || v.is_empty() != (n == 0) {
        return Err(format!("len() = {}, is_empty() = {} with {} elements", v.len(), v.is_empty(), n));
    }
    let mut shown: Vec<&T> = vec![];
    for i in 0..n {
        match v.get(i) {
            Some(x) => shown.push(x),
            None => return Err(format!("get({}) = None with {} elements", i, n)),
        }
    }
    for i in n..n + 3 {
        if v.get(i).is_some() {
            return Err(format!("get({}) gives {:?} with {} elements", i, v.get(i), n));
        }
    }
    for w in shown.windows(2) {
        if w[0] > w[1] {
            return Err(format!("not in ascending order: {:?}", shown));
        }
    }
    let mut a: Vec<String> = shown.iter().map(|x| x.ident()).collect();
    let mut b: Vec<String> = held.iter().map(|x| x.ident()).collect();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("holds {:?} instead of {:?}", a, b));
    }
    for x in needles {
        let there = held.iter().any(|h| h == x);
        match v.find_pos(x) {
            Some(p) => if v.get(p).map_or(true, |y| y != x) {
                return Err(format!("find_pos({:?}) = {} in {:?}", x, p, shown));
            },
            None => if there {
                return Err(format!("find_pos({:?}) = None in {:?}", x, shown));
            },
        }
        match v.find(x) {
            Some(y) => if y != x {
                return Err(format!("find({:?}) = {:?} in {:?}", x, y, shown));
            } else if !held.iter().any(|h| h.ident() == y.ident()) {
                return Err(format!("find({:?}) gives an element that is not held", x));
            },
            None => if there {
                return Err(format!("find({:?}) = None in {:?}", x, shown));
            },
        }
        match v.binary_search_by(|p| p.cmp(x)) {
            Ok(p) => if shown.get(p).map_or(true, |y| *y != x) {
                return Err(format!("binary_search_by for {:?} = Ok({}) in {:?}", x, p, shown));
            },
            Err(p) => if there || p != held.iter().filter(|h| *h < x).count() {
                return Err(format!("binary_search_by for {:?} = Err({}) in {:?}", x, p, shown));
            },
        }
    }
    Ok(())
}

fn replay<T: Elem>(ops: &[Op], make: &dyn Fn(usize, usize) -> T) -> Result<(SortedVec<T>, Vec<T>), String> {
    let mut v = SortedVec::new();
    let mut held: Vec<T> = vec![];
    for (step, op) in ops.iter().enumerate() {
        match *op {
            Op::Push(k) => {
                let x = make(k, step);
                v.push(x.clone());
                held.push(x);
            }
            Op::Remove(i) => {
                let before = match v.get(i) { Some(x) => x.ident(), None => return Err(format!("get({}) = None before remove({})", i, i)) };
                let x = v.remove(i);
                if x.ident() != before {
                    return Err(format!("remove({}) gives {:?}, get({}) was {}", i, x, i, before));
                }
                match held.iter().position(|h| h.ident() == before) {
                    Some(p) => { held.swap_remove(p); }
                    None => return Err(format!("remove({}) gives {:?}, which is not held", i, x)),
                }
            }
        }
    }
    Ok((v, held))
}

fn sv_script(ops: &[Op], what: &str) -> String {
    format!("SortedVec of {}: {:?}\n", what, ops)
}

fn sv_check<T: Elem>(ops: &[Op], make: &dyn Fn(usize, usize) -> T, needles: &[T], what: &str, l: &mut Local) -> Outcome {
    l.states += 1;
    l.transitions += ops.len() as u64;
    l.traces += 1;
    let r = guard(|| -> Result<Vec<usize>, String> {
        let (v, held) = replay(ops, make)?;
        inspect(&v, &held, needles)?;
        // a clone is independent of what it was cloned from
        let mut c = v.clone();
        if let Some(x) = needles.get(ops.len() % needles.len().max(1)) {
            c.push(x.clone());
            inspect(&v, &held, &[])?;
            let mut more = held.clone();
            more.push(x.clone());
            inspect(&c, &more, needles)?;
        }
        let mut d = v.clone();
        if !held.is_empty() {
            d.remove(held.len() / 2);
            inspect(&v, &held, needles)?;
        }
        Ok(needles.iter().map(|x| v.find_pos(x).map_or(usize::max_value(), |p| p)).collect())
    });
    match r {
        Err(p) => violation(format!("panics: {}", p), sv_script(ops, what)),
        Ok(Err(e)) => violation(e, sv_script(ops, what)),
        Ok(Ok(o)) => {
            l.outcome(&o);
            l.sample(|| sv_script(ops, what));
            Ok(())
        }
    }
}

/// All operation sequences up to `depth` over `vals` values.
fn sv_all<T: Elem + 'static, M: Fn(usize, usize) -> T + Sync + Send + 'static>(name: &str, what: &str, vals: usize, depth: usize, make: M, needles: Vec<T>) -> Family {
    // first operations, fixed by the item
    fn go<T: Elem>(ops: &mut Vec<Op>, len: usize, vals: usize, depth: usize, make: &dyn Fn(usize, usize) -> T, needles: &[T], what: &str, l: &mut Local) -> Outcome {
        sv_check(ops, make, needles, what, l)?;
        if ops.len() == depth {
            return Ok(());
        }
        for k in 0..vals {
            ops.push(Op::Push(k));
            go(ops, len + 1, vals, depth, make, needles, what, l)?;
            ops.pop();
        }
        for i in 0..len {
            ops.push(Op::Remove(i));
            go(ops, len - 1, vals, depth, make, needles, what, l)?;
            ops.pop();
        }
        Ok(())
    }
    let n = vals as u64;
    let bound = format!("all sequences of up to {} push/remove operations with {} values of type {}, inspected after each", depth, vals, what);
    let what = what.to_owned();
    Family::new(name, bound, n * n * n, move |item, l| {
        let mut ops: Vec<Op> = vec![(item / n / n) as usize, (item / n % n) as usize, (item % n) as usize].into_iter().map(Op::Push).collect();
        // the prefixes of this item's fixed part
        if item % (n * n) == 0 {
            sv_check(&ops[..1], &make, &needles, &what, l)?;
            if item == 0 {
                sv_check(&[], &make, &needles, &what, l)?;
            }
            let mut o = vec![ops[0], Op::Remove(0)];
            go(&mut o, 0, vals, depth, &make, &needles, &what, l)?;
        }
        if item % n == 0 {
            sv_check(&ops[..2], &make, &needles, &what, l)?;
            for i in 0..2 {
                let mut o = vec![ops[0], ops[1], Op::Remove(i)];
                go(&mut o, 1, vals, depth, &make, &needles, &what, l)?;
            }
        }
        go(&mut ops, 3, vals, depth, &make, &needles, &what, l)
    })
}

/// Many elements in several orders, then removals from one end or the middle.
fn sv_big(max: usize, step: usize) -> Family {
    let sizes: Vec<usize> = (0..max).filter(|n| *n < 140 || n % step == 0).collect();
    let n = sizes.len() as u64;
    Family::new("sizes", format!("{} sizes up to {} x 9 insertion orders x 3 value patterns x 4 removal orders, all needles", sizes.len(), max), n, move |item, l| {
        let n = sizes[item as usize];
        for order in 0..9usize {
            for pat in 0..3usize {
                let value = |i: usize| -> i64 {
                    let j = match order {
                        0 => i,
                        1 => n - 1 - i,
                        2 => (i + n / 2) % n.max(1),
                        3 => (i * 7 + 3) % n.max(1),
                        4 => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 },
                        5 => i ^ 1,
                        6 => i ^ 3,
                        7 => (i + 1) % n.max(1),
                        _ => (i * i) % n.max(1),
                    } as i64;
                    match pat { 0 => j * 2, 1 => j / 3 * 2, _ => j % 5 * 2 - 4 }
                };
                let mut needles: Vec<i64> = (0..n).map(&value).collect();
                needles.sort();
                needles.dedup();
                let extra: Vec<i64> = needles.iter().map(|x| x + 1).collect();
                needles.extend(extra);
                needles.push(-5);
                let r = guard(|| -> Result<(), String> {
                    let mut v = SortedVec::new();
                    let mut held = vec![];
                    for i in 0..n {
                        v.push(value(i));
                        held.push(value(i));
                    }
                    inspect(&v, &held, &needles)?;
                    for rem in 0..4usize {
                        let mut w = v.clone();
                        let mut h = held.clone();
                        for k in 0..n.min(24) {
                            let i = match rem { 0 => 0, 1 => w.len() - 1, 2 => w.len() / 2, _ => (k * 5) % w.len() };
                            let x = w.remove(i);
                            let p = match h.iter().position(|y| *y == x) { Some(p) => p, None => return Err(format!("remove({}) gives {}, which is not held", i, x)) };
                            h.swap_remove(p);
                        }
                        inspect(&w, &h, &needles)?;
                        w.push(3);
                        h.push(3);
                        inspect(&w, &h, &needles)?;
                    }
                    Ok(())
                });
                l.states += 9;
                l.traces += 9;
                l.transitions += n as u64 + 100;
                let s = format!("SortedVec<i64> with {} elements, insertion order {}, values {}\n", n, order, pat);
                match r {
                    Err(p) => return violation(format!("panics: {}", p), s),
                    Ok(Err(e)) => return violation(e.chars().take(2000).collect(), s),
                    Ok(Ok(())) => l.outcome(&(n, order, pat)),
                }
            }
        }
        Ok(())
    })
}

fn words() -> Vec<String> {
    ["", "a", "aa", "ab", "b", "é", "è", "Z"].iter().map(|s| s.to_string()).collect()
}

fn c19(tier: Tier) -> Vec<Family> {
    let q = tier == Tier::Quick;
    vec![
        sv_all("bytes", "u8", 3, if q { 8 } else { 9 }, |k, _| [1u8, 3, 5][k], (0..7).collect()),
        sv_all("bytes-5", "u8", 5, if q { 6 } else { 8 }, |k, _| [0u8, 1, 127, 128, 255][k], vec![0, 1, 2, 126, 127, 128, 129, 254, 255]),
        sv_all("strings", "String", 4, if q { 7 } else { 8 }, |k, _| words()[[1usize, 2, 5, 0][k]].clone(), words()),
        sv_all("strings-8", "String", 8, if q { 5 } else { 6 }, |k, _| words()[k].clone(), words()),
        sv_all("keyed", "elements compared by key only", 3, if q { 8 } else { 9 }, |k, step| Keyed { key: k as u8, tag: step }, (0..4).map(|k| Keyed { key: k, tag: 99 }).collect()),
        sv_big(if q { 300 } else { 2000 }, 50),
    ]
}

// ------------------------------------------------ C20

fn common(a: &str, b: &str) -> usize {
    a.chars().zip(b.chars()).take_while(|&(x, y)| x == y).map(|(x, _)| x.len_utf8()).sum()
}

fn pair(a: &str, b: &str) -> Result<usize, String> {
    let want = common(a, b);
    let got = guard(|| (a.common_prefix_len(b), b.common_prefix_len(a), a.has_common_prefix(b), b.has_common_prefix(a)))?;
    let opt = if want > 0 { Some(want) } else { None };
    if got == (want, want, opt, opt) {
        Ok(want)
    } else {
        Err(format!("common prefix of {:?} and {:?} is {}: common_prefix_len = {} / {}, has_common_prefix = {:?} / {:?}", a, b, want, got.0, got.1, got.2, got.3))
    }
}

fn cuts(a: &str) -> Result<(), String> {
    for i in 0..a.len() + 1 {
        if a.is_char_boundary(i) {
            let (x, y) = guard(|| (a.ltrunc(i), a.rtrunc(a.len() - i)))?;
            if x != &a[i..] || y != &a[..i] || format!("{}{}", y, x) != a {
                return Err(format!("{:?}.ltrunc({}) = {:?}, rtrunc({}) = {:?}", a, i, x, a.len() - i, y));
            }
        }
    }
    Ok(())
}

fn judge<T: std::hash::Hash>(r: Result<T, String>, l: &mut Local) -> Outcome {
    l.states += 1;
    l.traces += 1;
    l.transitions += 4;
    match r {
        Ok(o) => { l.outcome(&o); Ok(()) }
        Err(e) => violation(e.chars().take(1000).collect(), format!("{}\n", e.chars().take(4000).collect::<String>())),
    }
}

fn cp_pairs(name: &str, alphabet: &'static [char], n: usize) -> Family {
    let all = Arc::new(all_strings(alphabet, n));
    let k = all.len() as u64;
    Family::new(name, format!("all pairs of the {} strings of up to {} characters of {:?}", k, n, alphabet), k, move |item, l| {
        let a = &all[item as usize];
        judge(cuts(a), l)?;
        for b in all.iter() {
            judge(pair(a, b), l)?;
        }
        l.sample(|| format!("{:?} with all", a));
        Ok(())
    })
}

fn scalars() -> Vec<char> {
    (0..0x110000u32).filter_map(std::char::from_u32).collect()
}

fn cp_scalars() -> Family {
    let all = Arc::new(scalars());
    let chunk = 4096;
    let items = (all.len() + chunk - 1) / chunk;
    Family::new("scalars", format!("each of the {} Unicode characters against itself, 23 relatives differing in one or more bits, and 8 fixed characters, alone and inside text", all.len()), items as u64, move |item, l| {
        let lo = item as usize * chunk;
        for &c in &all[lo..(lo + chunk).min(all.len())] {
            let mut others: Vec<char> = (0..21).filter_map(|b| std::char::from_u32(c as u32 ^ (1 << b))).collect();
            others.extend([c, 'a', 'é', '€', '😀', '\u{0}', '\u{10ffff}', '\u{7ff}', '\u{ffff}'].iter());
            others.extend([c as u32 ^ 0x3f, c as u32 ^ 0xfc0].iter().filter_map(|x| std::char::from_u32(*x)));
            let mut buf = String::new();
            let mut buf2 = String::new();
            for d in others {
                for (pre, post, post2) in [("", "", ""), ("a", "b", "b"), ("é", "€", "")].iter() {
                    buf.clear();
                    buf.push_str(pre);
                    buf.push(c);
                    buf.push_str(post);
                    buf2.clear();
                    buf2.push_str(pre);
                    buf2.push(d);
                    buf2.push_str(post2);
                    judge(pair(&buf, &buf2), l)?;
                }
            }
            judge(cuts(&buf), l)?;
        }
        Ok(())
    })
}

fn cp_long(max: usize) -> Family {
    Family::new("long", format!("common prefixes of every length up to {} characters with 15 different continuations", max), max as u64 + 1, move |item, l| {
        for unit in ["a", "é", "€", "😀", "aé", "ab"].iter() {
            let pre: String = unit.chars().cycle().take(item as usize).collect();
            let tails = ["", "x", "y", "é", "è", "©", "€", "₭", "\u{2f00}", "😀", "😁", "\u{1f640}", "\u{10ffff}", "xy", "😀x"];
            for t in tails.iter() {
                let a = format!("{}{}", pre, t);
                for u in tails.iter() {
                    let b = format!("{}{}", pre, u);
                    judge(pair(&a, &b), l)?;
                }
                if item < 300 {
                    judge(cuts(&a), l)?;
                }
            }
        }
        Ok(())
    })
}

/// common prefixes whose byte length is at and around every power of two
fn cp_huge(max: u32) -> Family {
    let mut ns: Vec<usize> = vec![];
    for k in 10..max + 1 {
        for d in 0..9 {
            ns.push((1usize << k) + d - 4);
        }
    }
    Family::new("huge", format!("common prefixes of {} lengths around the powers of two up to 2^{} bytes", ns.len(), max), ns.len() as u64, move |item, l| {
        let n = ns[item as usize];
        for unit in ["a", "é", "€", "😀"].iter() {
            let mut pre: String = "x".repeat(n % unit.len());
            pre.push_str(&unit.repeat(n / unit.len()));
            for (t, u) in [("", ""), ("", "x"), ("x", "y"), ("é", "è"), ("€", "₭"), ("😀", "😁"), ("x", ""), ("xy", "xz"), ("é", "x")].iter() {
                judge(pair(&format!("{}{}", pre, t), &format!("{}{}", pre, u)), l)?;
            }
            // cut around the middle and the ends, with as much on either side and with more
            for tail in ["", "yz", "è€😁"].iter().map(|t| t.to_string()).chain(vec![unit.repeat(n / unit.len()), format!("é{}", unit.repeat(2 * n / unit.len()))]) {
                let s = format!("{}{}", pre, tail);
                let near = |c: usize| (c.saturating_sub(5)..c + 6).filter(|i| *i <= s.len() && s.is_char_boundary(*i)).collect::<Vec<_>>();
                for i in near(0).into_iter().chain(near(pre.len())).chain(near(s.len() / 2)).chain(near(s.len())) {
                    judge(guard(|| (s.ltrunc(i) == &s[i..], s.rtrunc(s.len() - i) == &s[..i])).and_then(|r| if r == (true, true) { Ok(r) } else { Err(format!("a string of {} bytes ({} times {:?} and more) cut at byte {}: ltrunc right is {}, rtrunc right is {}", s.len(), n / unit.len(), unit, i, r.0, r.1)) }), l)?;
                }
            }
        }
        Ok(())
    })
}

fn c20(tier: Tier) -> Vec<Family> {
    let q = tier == Tier::Quick;
    vec![
        cp_pairs("pairs", &['a', 'b', 'é', 'è', '©', '€', '₭', '😀', '😁'], if q { 3 } else { 4 }),
        cp_pairs("pairs-4", &['a', 'é', 'è', '€', '₭', '😀'], if q { 4 } else { 5 }),
        cp_pairs("pairs-ascii", &['a', 'b'], if q { 10 } else { 12 }),
        cp_pairs("pairs-two-byte", &['é', 'è', '\u{149}'], if q { 6 } else { 8 }),
        cp_scalars(),
        cp_long(if q { 600 } else { 5000 }),
        cp_huge(if q { 18 } else { 24 }),
    ]
}

// ------------------------------------------------ C21

fn named(i: usize) -> Pattern {
    real::pattern(i, &vec![])
}

fn li_script(lits: &[&str], tail: &str) -> String {
    let mut s = "let mut t = SuffixTree::new()\n".to_owned();
    for l in lits {
        s += &format!("t.insert_literal({:?})\n", l);
    }
    s + tail + "\n"
}

/// Inserts, looks every text up, inserts all of it again, looks every text up again.
fn li_run(lits: &[&str], texts: &[String], l: &mut Local) -> Outcome {
    let set: BTreeSet<&str> = lits.iter().cloned().collect();
    l.states += 1;
    l.transitions += lits.len() as u64;
    let built = guard(|| -> Result<SuffixTree, String> {
        let mut t = SuffixTree::new();
        for (i, x) in lits.iter().enumerate() {
            if i > 0 && t.is_leaf() {
                return Err("the trie is a leaf although it holds literals".to_owned());
            }
            let first = lits.iter().position(|y| y == x).unwrap();
            let n = t.insert_literal(x);
            if !n.has_value() {
                return Err(format!("insert_literal({:?}) gives a node without value", x));
            }
            if !x.ends_with(n.literal()) {
                return Err(format!("insert_literal({:?}) gives the node of {:?}", x, n.literal()));
            }
            let there = n.pattern().map(|p| p.uuid().clone());
            if first < i {
                if there != Some(real::uuid(first)) {
                    return Err(format!("inserting {:?} again gives a node with {:?} instead of the one with #{}", x, there, first));
                }
            } else {
                if there.is_some() {
                    return Err(format!("the new literal {:?} gets a node in use by {:?}", x, there));
                }
                n.set_pattern(Some(named(i)));
            }
        }
        Ok(t)
    });
    let mut t = match built {
        Err(p) => return violation(format!("insertion panics: {}", p), li_script(lits, "")),
        Ok(Err(e)) => return violation(e, li_script(lits, "")),
        Ok(Ok(t)) => t,
    };
    for round in 0..2 {
        for text in texts {
            l.transitions += 1;
            l.traces += 1;
            let here = set.contains(text.as_str());
            let seen = guard(|| {
                let a = t.lookup_literal(text).map(|_| ()).map_err(|e| e.1);
                let b = t.clone().lookup_literal_mut(text).map(|_| ()).map_err(|e| e.1);
                let p = t.parse(text).map(|m| m.pattern().uuid().clone());
                (a, b, p)
            });
            let (a, b, p) = match seen {
                Err(p) => return violation(format!("lookup panics: {}", p), li_script(lits, &format!("t.lookup_literal({:?})", text))),
                Ok(x) => x,
            };
            let want = lits.iter().position(|y| y == text).map(real::uuid);
            if a != b {
                return violation(format!("lookup_literal gives {:?}, lookup_literal_mut {:?}", a, b), li_script(lits, &format!("lookup of {:?}", text)));
            }
            if a.is_ok() != here {
                return violation(format!("lookup of {:?} {}", text, if here { "fails although it was inserted" } else { "succeeds although it was never inserted" }), li_script(lits, &format!("t.lookup_literal({:?})", text)));
            }
            if p != want {
                return violation(format!("what was stored at {:?} is {:?}, the trie gives {:?}", text, want, p), li_script(lits, &format!("t.parse({:?})", text)));
            }
            if let Err(rem) = a {
                let fine = rem <= text.len() && text.is_char_boundary(text.len() - rem) && {
                    let done = &text[..text.len() - rem];
                    done.is_empty() || set.iter().any(|x| x.starts_with(done))
                };
                if !fine {
                    return violation(format!("a failed lookup of {:?} reports {} bytes left", text, rem), li_script(lits, &format!("t.lookup_literal({:?})", text)));
                }
                l.outcome(&(rem, text.len(), round));
            } else {
                l.outcome(&(here, text.len(), round));
            }
        }
        if round == 0 {
            let again = guard(|| {
                for x in lits {
                    t.insert_literal(x);
                }
            });
            if let Err(p) = again {
                return violation(format!("inserting the literals again panics: {}", p), li_script(lits, "and all of them again"));
            }
        }
    }
    l.sample(|| format!("{:?}", lits));
    Ok(())
}

fn li_sequences(name: &str, pool: Vec<String>, texts: Vec<String>, k: usize, what: &str) -> Family {
    let n = pool.len() as u64;
    let bound = format!("all sequences (with repetition) of {} of {} literals ({}), {} texts looked up", k, n, what, texts.len());
    Family::new(name, bound, n * n, move |item, l| {
        let inner = n.pow(k as u32 - 2);
        for j in 0..inner {
            let mut seq: Vec<&str> = vec![&pool[(item / n) as usize], &pool[(item % n) as usize]];
            let mut x = j;
            for _ in 2..k {
                seq.push(&pool[(x % n) as usize]);
                x /= n;
            }
            li_run(&seq, &texts, l)?;
        }
        Ok(())
    })
}

fn li_orders(name: &str, pool: Vec<String>, texts: Vec<String>) -> Family {
    let perms = permutations(pool.len());
    let chunk = 64;
    let bound = format!("all {} insertion orders of {:?}, {} texts looked up", perms.len(), pool, texts.len());
    Family::new(name, bound, ((perms.len() + chunk - 1) / chunk) as u64, move |item, l| {
        let lo = item as usize * chunk;
        for p in &perms[lo..(lo + chunk).min(perms.len())] {
            let seq: Vec<&str> = p.iter().map(|&i| pool[i].as_str()).collect();
            li_run(&seq, &texts, l)?;
        }
        Ok(())
    })
}

fn li_big(max: usize) -> Family {
    Family::new("sizes", format!("1 to {} literals of 5 shapes in 4 orders, every literal and each with one character more or less looked up", max), max as u64, move |item, l| {
        let n = item as usize + 1;
        let shapes: Vec<fn(usize) -> String> = vec![
            |i| format!("key{:03}", i),
            |i| "a".repeat(i + 1),
            |i| format!("{:b}", i + 1),
            |i| format!("{}z", std::char::from_u32(0xa1 + i as u32 * 3).unwrap_or('x')),
            |i| format!("{}é{}", "b".repeat(i % 13), i),
        ];
        for g in &shapes {
            let lits: Vec<String> = (0..n).map(|i| g(i)).collect();
            let mut texts = vec![String::new()];
            for x in &lits {
                texts.push(x.clone());
                texts.push(format!("{}a", x));
                let mut c = x.clone();
                c.pop();
                texts.push(c);
            }
            for order in 0..4 {
                let seq: Vec<&str> = (0..n).map(|i| lits[match order { 0 => i, 1 => n - 1 - i, 2 => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }, _ => (i + n / 3) % n }].as_str()).collect();
                li_run(&seq, &texts, l)?;
            }
        }
        Ok(())
    })
}

/// Long literals that differ late, and texts that differ from them late.
fn li_long(sizes: Vec<usize>) -> Family {
    Family::new("lengths", format!("literals of {} lengths up to {} that share all but the last characters, alone, in pairs and below a shorter one; texts that differ at every boundary of interest", sizes.len(), sizes[sizes.len() - 1]), sizes.len() as u64, move |item, l| {
        let n = sizes[item as usize];
        for unit in ["a", "é", "ab😀"].iter() {
            let stem = unit.repeat(n);
            let half = unit.repeat(n / 2);
            let mut lits: Vec<String> = vec!["x", "y", "xz", "é", "è"].iter().map(|e| format!("{}{}", stem, e)).collect();
            lits.push(format!("{}x{}", half, unit.repeat(n - n / 2)));
            lits.push(stem.clone());
            let mut texts: Vec<String> = lits.clone();
            for x in &lits {
                texts.push(format!("{}a", x));
                texts.push(x.chars().take(x.chars().count() - 1).collect());
            }
            texts.push(half.clone());
            texts.push(format!("{}y{}", half, unit.repeat(n - n / 2)));
            texts.push(String::new());
            for a in 0..lits.len() {
                li_run(&[&lits[a]], &texts, l)?;
                for b in 0..lits.len() {
                    li_run(&[&lits[a], &lits[b]], &texts, l)?;
                    if !half.is_empty() {
                        li_run(&[&half, &lits[a], &lits[b]], &texts, l)?;
                        li_run(&[&lits[a], &lits[b], &half], &texts, l)?;
                    }
                }
            }
        }
        Ok(())
    })
}

/// A literal gets a trie of its own, whose literals are then found behind it.
fn li_grafted(base: Vec<String>, below: Vec<String>, texts: Vec<String>) -> Family {
    let n = base.len() as u64;
    let bound = format!("all sequences of up to 3 of {} literals, each of them in turn that ends at a leaf given a trie of its own of all sequences of 1 and 2 of {} literals, nothing or each of the literals inserted afterwards, {} texts looked up", n, below.len(), texts.len());
    Family::new("grafted", bound, n * n, move |item, l| {
        let mut subs: Vec<Vec<&String>> = below.iter().map(|x| vec![x]).collect();
        for x in &below {
            for y in &below {
                if x != y {
                    subs.push(vec![x, y]);
                }
            }
        }
        for third in std::iter::once(None).chain(base.iter().map(Some)) {
            let mut lits = vec![&base[(item / n) as usize], &base[(item % n) as usize]];
            lits.extend(third);
            lits.dedup();
            for at in lits.iter().filter(|x| !lits.iter().any(|y| y != *x && y.starts_with(x.as_str()))) {
                for sub in &subs {
                    for last in std::iter::once(None).chain(base.iter().map(Some)) {
                        let mut set: BTreeSet<String> = lits.iter().map(|x| x.to_string()).collect();
                        set.extend(sub.iter().map(|x| format!("{}{}", at, x)));
                        set.extend(last.cloned());
                        let script = || format!("{}let mut c = SuffixTree::new()\n{}t.insert_literal({:?}).set_node(Some(c))\n{}", li_script(&lits.iter().map(|x| x.as_str()).collect::<Vec<_>>(), ""), sub.iter().map(|x| format!("c.insert_literal({:?})\n", x)).collect::<String>(), at, last.map_or(String::new(), |x| format!("t.insert_literal({:?})\n", x)));
                        let built = guard(|| {
                            let mut t = SuffixTree::new();
                            for x in &lits {
                                t.insert_literal(x);
                            }
                            let mut c = SuffixTree::new();
                            for x in sub {
                                c.insert_literal(x);
                            }
                            t.insert_literal(at).set_node(Some(c));
                            if let Some(x) = last {
                                t.insert_literal(x);
                            }
                            t
                        });
                        l.states += 1;
                        l.transitions += (lits.len() + sub.len() + 1) as u64;
                        let mut t = match built {
                            Err(p) => return violation(format!("insertion panics: {}", p), script()),
                            Ok(t) => t,
                        };
                        for text in &texts {
                            l.traces += 1;
                            l.transitions += 2;
                            let seen = guard(|| (t.lookup_literal(text).map(|_| ()).map_err(|e| e.1), t.lookup_literal_mut(text).map(|_| ()).map_err(|e| e.1)));
                            let (a, b) = match seen {
                                Err(p) => return violation(format!("the lookup of {:?} panics: {}", text, p), script()),
                                Ok(x) => x,
                            };
                            let fine = a == b && a.is_ok() == set.contains(text) && a.err().map_or(true, |rem| rem <= text.len() && {
                                let done = &text[..text.len() - rem];
                                set.iter().any(|x| x.starts_with(done))
                            });
                            if !fine {
                                return violation(format!("lookup_literal({:?}) gives {:?}, lookup_literal_mut {:?}, and the literals are {:?}", text, a, b, set), script());
                            }
                            l.outcome(&(a, text.len()));
                        }
                    }
                }
            }
        }
        Ok(())
    })
}

fn nonempty(v: Vec<String>) -> Vec<String> {
    v.into_iter().filter(|x| !x.is_empty()).collect()
}

fn c21(tier: Tier) -> Vec<Family> {
    let q = tier == Tier::Quick;
    let ab = ['a', 'b'];
    let wide = ['é', 'è', '€', '₭', '😀', 'a'];
    let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    vec![
        li_sequences("triples", nonempty(all_strings(&ab, 4)), all_strings(&ab, 5), 3, "all over a, b up to 4 characters"),
        li_sequences("quads", nonempty(all_strings(&ab, 3)), all_strings(&ab, 4), if q { 4 } else { 5 }, "all over a, b up to 3 characters"),
        li_sequences("utf8-triples", nonempty(all_strings(&wide, 2)), all_strings(&wide, 3), 3, "all of up to 2 multi-byte characters with shared lead bytes"),
        li_sequences("utf8-quads", own(&["é", "è", "éa", "éè", "èé", "é€", "é₭", "a", "😀", "😁"]), all_strings(&['é', 'è', '€', '₭', 'a', '😀'], 3), if q { 4 } else { 5 }, "multi-byte literals with shared prefixes and lead bytes"),
        li_orders("orders", own(&["a", "ab", "abc", "abd", "b", "abcd", "ac"]), all_strings(&['a', 'b', 'c', 'd'], 4)),
        li_orders("orders-utf8", own(&["é", "éè", "éè€", "éè₭", "è", "éé", "a"]), all_strings(&['é', 'è', '€', '₭', 'a'], 4)),
        li_grafted(nonempty(all_strings(&ab, if q { 2 } else { 3 })), nonempty(all_strings(&ab, 2)), all_strings(&ab, if q { 4 } else { 5 })),
        li_big(if q { 140 } else { 400 }),
        li_long((1..=40).chain((6..if q { 13 } else { 17 }).flat_map(|k| vec![(1 << k) - 1, 1 << k, (1 << k) + 1])).chain(vec![100, 200, 300, 500, 600, 1000]).collect::<std::collections::BTreeSet<usize>>().into_iter().collect()),
    ]
}

fn build(p: &str, tier: Tier) -> Option<Check> {
    let (families, rule, assumptions) = match p {
        "C19" => (c19(tier), "two executions differ in the positions at which the needles are found", "the order of the elements is a total order"),
        "C20" => (c20(tier), "two executions differ in the common prefix length", "strings are cut at character boundaries only"),
        "C21" => (c21(tier), "two executions differ in the outcome of a lookup, the remaining length or the length of the text", "literals are not empty"),
        _ => return None,
    };
    Some(Check { property: p.to_owned(), families, rule: rule.to_owned(), assumptions: vec!["bounds as listed per family".to_owned(), assumptions.to_owned()] })
}

fn main() {
    engine::main(build)
}
