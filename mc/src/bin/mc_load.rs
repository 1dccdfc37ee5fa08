//! C12, C13 (documents), C15, C16, C17 (building matchers from sources and files).
use actiondb::matcher::compiled_pattern::{CompiledPattern, TokenType};
use actiondb::matcher::pattern::file::PatternFile;
use actiondb::matcher::pattern::source::BuildResult;
use actiondb::matcher::pattern::testmessage::{self, TestMessage};
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::{BuildError, FromPatternSource, Matcher, MatcherFactory, Pattern, PatternLoader};
use log::LogLevelFilter;
use mc::doc::{self, arr, obj, s, strs, Def, Refuse, TestMsg, V};
use mc::engine::{self, guard, violation, Check, Family, Local, Outcome, Tier};
use mc::logcap;
use mc::model::{self, greedy, int, link_greedy, lit, set, Tok, Tokens};
use mc::real::{self, ask, new_matcher, KINDS, Kind};
use mc::strings::{all_sequences, ladder, permutations};
use std::collections::BTreeMap;
use std::io;
use uuid::Uuid;

type Map = BTreeMap<String, String>;

fn map(v: &[(&str, &str)]) -> Map {
    v.iter().map(|x| (x.0.to_owned(), x.1.to_owned())).collect()
}
fn list(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

// ---------------------------------------------------------------- C12

/// How a compiled pattern differs from the tokens meant.
fn compiled_differs(cp: &CompiledPattern, toks: &Tokens) -> Option<String> {
    if cp.len() != toks.len() {
        return Some(format!("{} tokens instead of {}", cp.len(), toks.len()));
    }
    for (c, t) in cp.iter().zip(toks) {
        let same = match (c, t) {
            (&TokenType::Literal(ref l), &Tok::Lit(ref m)) => l == m,
            (&TokenType::Parser(_), &Tok::Lit(_)) | (&TokenType::Literal(_), _) => false,
            (&TokenType::Parser(ref p), t) => {
                p.name() == t.name() && p.hash_os() == real::parser(t).hash_os()
            }
        };
        if !same {
            return Some(format!("token {:?} instead of {:?}", c, t));
        }
    }
    None
}

fn tests_of(p: &mut Pattern) -> Vec<TestMsg> {
    let mut v = vec![];
    while let Some(t) = p.pop_test_message() {
        v.push(TestMsg { message: t.message().to_owned(), values: t.values().clone(), tags: t.tags().map(|t| t.to_vec()) });
    }
    v
}

fn by_text(v: &[TestMsg]) -> Vec<String> {
    let mut t: Vec<String> = v.iter().map(|x| format!("{:?}", x)).collect();
    t.sort();
    t
}

fn def_differs(mut p: Pattern, d: &Def) -> Option<String> {
    if p.name().map(|s| s.to_owned()) != d.name {
        return Some(format!("name {:?} instead of {:?}", p.name(), d.name));
    }
    if p.uuid().simple().to_string() != d.uuid {
        return Some(format!("uuid {} instead of {}", p.uuid(), d.uuid));
    }
    if let Some(x) = compiled_differs(p.pattern(), &d.tokens) {
        return Some(format!("compiled pattern: {}", x));
    }
    if p.values() != d.values.as_ref() {
        return Some(format!("values {:?} instead of {:?}", p.values(), d.values));
    }
    if p.tags().map(|t| t.to_vec()) != d.tags {
        return Some(format!("tags {:?} instead of {:?}", p.tags(), d.tags));
    }
    let got = tests_of(&mut p);
    let exp = d.tests.clone().unwrap_or(vec![]);
    if by_text(&got) != by_text(&exp) {
        return Some(format!("test messages {:?} instead of {:?}", got, exp));
    }
    None
}

fn check_def(v: &V, text: &str, l: &mut Local) -> Outcome {
    l.states += 1;
    l.traces += 1;
    l.transitions += match *v { V::Obj(ref o) => o.len() as u64, _ => 1 };
    let script = || format!("Pattern::from_json on\n{}\n", text);
    let exp = doc::def(v);
    l.outcome(&format!("{:?}", exp.as_ref().map(|d| (d.name.is_some(), d.values.as_ref().map(|v| v.len()), d.tags.as_ref().map(|v| v.len()), d.tests.as_ref().map(|v| v.len())))));
    let got = guard(|| Pattern::from_json(text).map_err(|e| e.to_string()));
    logcap::take_errors();
    match (got, exp) {
        (Err(e), _) => violation(format!("reading the definition panics: {}", e), script()),
        (Ok(Ok(p)), Err(_)) => violation(format!("a defective definition is accepted: {:?}", p), script()),
        (Ok(Err(e)), Ok(_)) => violation(format!("a correct definition is rejected: {}", e), script()),
        (Ok(Err(e)), Err(Refuse::Missing(f))) => if e.contains(f) { Ok(()) } else { violation(format!("the field {} is missing, the error says {:?}", f, e), script()) },
        (Ok(Err(_)), Err(Refuse::Other)) => Ok(()),
        (Ok(Ok(p)), Ok(d)) => match def_differs(p, &d) {
            Some(x) => violation(format!("the definition is read as something else: {}", x), script()),
            None => Ok(()),
        },
    }
}

/// Name, choices (None: absent).
type Choice = (&'static str, Vec<Option<V>>);

const U1: &str = "9a49c47d-29e9-4072-be84-3b76c6814743";
const U2: &str = "0b1d2b1a0d3c4a0f8e5b0a0b0c0d0e0f";
const U3: &str = "F13DAFEE-CD14-4DDA-995C-6ED476A21DE3";

fn test_choices() -> Vec<Choice> {
    vec![
        ("message", vec![None, Some(s("a 1")), Some(s("")), Some(s("é\n\"x\\")), Some(V::Num(1)), Some(strs(&["a"])), Some(V::Bool(true))]),
        ("values", vec![None, Some(obj(&[])), Some(obj(&[("k", s("v"))])), Some(obj(&[("k", s("v")), ("l.é", s("")), ("", s("1"))])), Some(obj(&[("k", V::Num(1))])), Some(strs(&["k"])), Some(s("k"))]),
        ("tags", vec![None, Some(arr(&[])), Some(strs(&["t"])), Some(strs(&["t", "u", "t", "é"])), Some(arr(&[V::Num(1)])), Some(s("t")), Some(obj(&[("t", s("t"))]))]),
        ("extra", vec![None, Some(s("x"))]),
    ]
}

fn test_values() -> Vec<V> {
    let good = obj(&[("message", s("a 1")), ("values", obj(&[("k", s("v"))])), ("tags", strs(&["t"]))]);
    let good2 = obj(&[("message", s("other"))]);
    let good3 = obj(&[("tags", strs(&["u"])), ("message", s("third é"))]);
    vec![arr(&[]), arr(&[good.clone()]), arr(&[good.clone(), good2.clone()]), arr(&[good3.clone(), good2.clone(), good.clone(), good.clone()]),
         arr(&[obj(&[])]), arr(&[good.clone(), obj(&[("values", obj(&[]))])]), arr(&[obj(&[("message", s("x")), ("field", s("y"))]), good.clone()]), arr(&[s("a")]), good.clone(), s("a")]
}

fn def_choices() -> Vec<Choice> {
    vec![
        ("name", vec![None, Some(s("SSH")), Some(s("")), Some(V::Num(1)), Some(strs(&["n"]))]),
        ("uuid", vec![None, Some(s(U1)), Some(s(U2)), Some(s(U3)), Some(s("")), Some(s("9a49c47d-29e9-4072-be84-3b76c681474")), Some(s("9a49c47d-29e9-4072-be84-3b76c681474g")), Some(s("9a49c47d29e9-4072-be84-3b76c6814743")), Some(V::Num(1))]),
        ("pattern", vec![None, Some(s("a")), Some(s("é %{INT:n}\n")), Some(s("%{SET(\"ab\",min_len=1):s} %{GREEDY:g};")), Some(s("")), Some(s("%{")), Some(s("a%{INT:n}%{XYZ}")), Some(V::Num(1)), Some(strs(&["a"]))]),
        ("values", vec![None, Some(obj(&[])), Some(obj(&[("k", s("v")), ("é", s("w\n")), ("", s(""))])), Some(obj(&[("k", V::Num(1))])), Some(strs(&["k"]))]),
        ("tags", vec![None, Some(arr(&[])), Some(strs(&["t", "u", "t"])), Some(arr(&[s("t"), V::Num(1)])), Some(s("t"))]),
        ("test_messages", { let mut v = vec![None]; v.extend(test_values().into_iter().map(Some)); v }),
        ("", vec![None, Some(obj(&[("Name", s("x"))])), Some(obj(&[("test_message", arr(&[]))])), Some(obj(&[("patterns", arr(&[]))]))]),
    ]
}

/// The document number `i` of the cross product.
fn pick(choices: &[Choice], mut i: u64, extra: &str) -> V {
    let mut o = vec![];
    for &(name, ref vals) in choices {
        let v = &vals[(i % vals.len() as u64) as usize];
        i /= vals.len() as u64;
        if let Some(ref v) = *v {
            if name == "" {
                if let V::Obj(ref x) = *v {
                    o.extend(x.clone());
                }
            } else if name == "extra" {
                o.push((extra.to_owned(), v.clone()));
            } else {
                o.push((name.to_owned(), v.clone()));
            }
        }
    }
    V::Obj(o)
}

fn product(choices: &[Choice]) -> u64 {
    choices.iter().map(|c| c.1.len() as u64).product()
}

fn chunked<F: Fn(u64, &mut Local) -> Outcome + Sync + 'static>(name: &str, bound: String, n: u64, chunk: u64, f: F) -> Family {
    Family::new(name, bound, (n + chunk - 1) / chunk, move |item, l| {
        for i in item * chunk..((item + 1) * chunk).min(n) {
            f(i, l)?;
        }
        Ok(())
    })
}

fn c12(tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let mut f = vec![];
    let ch = def_choices();
    let n = product(&ch);
    f.push(chunked("definitions", format!("all {} pattern definitions: every combination of absent, correct, wrongly typed and invalid contents of the six fields, with and without an unknown field", n), n, 512, move |i, l| {
        let v = pick(&ch, i, "");
        l.sample(|| v.json());
        check_def(&v, &v.json(), l)
    }));
    let ch = test_choices();
    let n = product(&ch);
    f.push(chunked("test-messages", format!("all {} test messages in a definition, alone and next to correct ones, in three places", n * 3), n * 3, 128, move |i, l| {
        let t = pick(&ch, i / 3, "field");
        let good = obj(&[("message", s("g"))]);
        let tests = match i % 3 { 0 => arr(&[t]), 1 => arr(&[t, good.clone(), good]), _ => arr(&[good.clone(), good, t]) };
        let v = obj(&[("uuid", s(U1)), ("pattern", s("a")), ("test_messages", tests)]);
        check_def(&v, &v.json(), l)
    }));
    // field order and layout do not matter
    let perms = permutations(6);
    let fields: Vec<(String, V)> = vec![("name", s("n")), ("uuid", s(U3)), ("pattern", s("%{INT:n}é")), ("values", obj(&[("k", s("v"))])), ("tags", strs(&["t"])), ("test_messages", arr(&[obj(&[("message", s("1é"))])]))]
        .into_iter().map(|x| (x.0.to_owned(), x.1)).collect();
    f.push(chunked("field-order", format!("all {} orders of the six fields x all 64 subsets, compact and spread over lines", perms.len()), perms.len() as u64 * 64, 64, move |i, l| {
        let p = &perms[(i / 64) as usize];
        let o: Vec<(String, V)> = p.iter().filter(|&&k| (i % 64) >> k & 1 == 1).map(|&k| fields[k].clone()).collect();
        let v = V::Obj(o);
        check_def(&v, &v.json(), l)?;
        check_def(&v, &v.json_pretty(0), l)
    }));
    // every single letter of an uuid and every unknown field name
    f.push(chunked("uuids", "every position of an uuid x every ASCII character (hyphens and digits moved, dropped, replaced), both spellings".to_owned(), 37 * 128 * 3, 512, |i, l| {
        let (pos, c, how) = ((i / 3 / 128) as usize, (i / 3 % 128) as u8 as char, i % 3);
        for base in [U1, U2].iter() {
            if pos > base.len() {
                continue;
            }
            let mut t: String = base[..pos].to_owned();
            t.push(c);
            match how {
                0 => t.push_str(&base[(pos + 1).min(base.len())..]),
                1 => t.push_str(&base[pos..]),
                _ => t = format!("{}{}", &base[..pos], &base[(pos + 1).min(base.len())..]),
            }
            let v = obj(&[("uuid", s(&t)), ("pattern", s("a"))]);
            check_def(&v, &v.json(), l)?;
        }
        Ok(())
    }));
    let known = ["name", "uuid", "pattern", "values", "tags", "test_messages", "message", "patterns"];
    let mut unknown: Vec<String> = vec!["".to_owned(), "x".to_owned(), "é".to_owned()];
    for k in known.iter() {
        unknown.push(k.to_uppercase());
        unknown.push(format!("{}s", k));
        unknown.push(format!(" {}", k));
        unknown.push(format!("{} ", k));
        unknown.push(k[..k.len() - 1].to_owned());
        unknown.push(k.to_string());
        unknown.push(k.replace('_', "-"));
    }
    let un = unknown.len() as u64;
    f.push(chunked("field-names", format!("{} field names near the known ones, in a definition, in a test message and in a file", un), un, 4, move |i, l| {
        let u = &unknown[i as usize];
        for val in [s("x"), strs(&["a"]), obj(&[("k", s("v"))]), V::Num(3)].iter() {
            let mut o = vec![("uuid".to_owned(), s(U1)), ("pattern".to_owned(), s("a"))];
            if o.iter().all(|x| x.0 != *u) {
                o.push((u.clone(), val.clone()));
            }
            let v = V::Obj(o);
            check_def(&v, &v.json(), l)?;
            let mut o = vec![("message".to_owned(), s("a"))];
            if *u != "message" {
                o.insert(0, (u.clone(), val.clone()));
            }
            let v = obj(&[("uuid", s(U1)), ("pattern", s("a")), ("test_messages", V::Arr(vec![V::Obj(o)]))]);
            check_def(&v, &v.json(), l)?;
            let mut o = vec![("patterns".to_owned(), arr(&[]))];
            if *u != "patterns" {
                o.push((u.clone(), val.clone()));
            }
            check_file(&V::Obj(o), &Style::all()[..2], l)?;
        }
        Ok(())
    }));
    // what is not a definition at all
    let shapes = vec![s("a"), V::Num(1), arr(&[]), obj(&[]), strs(&["name", "uuid"]), V::Bool(false), V::Float("1.5")];
    let sn = shapes.len() as u64;
    f.push(chunked("shapes", format!("{} values that are not definitions, alone, as file, as list of patterns and inside it", sn), sn, 1, move |i, l| {
        let v = &shapes[i as usize];
        check_def(v, &v.json(), l)?;
        let good = obj(&[("uuid", s(U1)), ("pattern", s("a"))]);
        for x in [v.clone(), obj(&[("patterns", v.clone())]), obj(&[("patterns", arr(&[v.clone()]))]), obj(&[("patterns", arr(&[good.clone(), v.clone()]))]), obj(&[("patterns", arr(&[v.clone(), good.clone()]))])].iter() {
            check_file(x, &Style::all()[..2], l)?;
        }
        Ok(())
    }));
    // truncated documents
    let doc = obj(&[("name", s("é")), ("uuid", s(U1)), ("pattern", s("a%{INT:n}")), ("values", obj(&[("k", s("v"))])), ("tags", strs(&["t", "u"])), ("test_messages", arr(&[obj(&[("message", s("a1")), ("values", obj(&[("n", s("1"))]))])]))]);
    let t = doc.json_pretty(0);
    let tn = t.len() as u64;
    f.push(chunked("truncations", format!("every proper prefix and every suffix of a definition of {} bytes, and trailing garbage", tn), tn, 16, move |i, l| {
        let i = i as usize;
        if !t.is_char_boundary(i) {
            return Ok(());
        }
        for x in [t[..i].to_owned(), t[i..].chars().skip(1).collect::<String>(), format!("{}{}", t, &t[i..])].iter() {
            l.states += 1;
            l.traces += 1;
            l.transitions += 1;
            match guard(|| Pattern::from_json(x).map(|p| format!("{:?}", p)).map_err(|e| e.to_string())) {
                Err(e) => return violation(format!("reading the definition panics: {}", e), x.clone()),
                Ok(Ok(p)) => return violation(format!("a damaged definition is accepted: {}", p), x.clone()),
                Ok(Err(_)) => {}
            }
        }
        logcap::take_errors();
        Ok(())
    }));
    let texts = all_sequences(MARKS.len(), if quick { 3 } else { 4 });
    let n = (texts.len() as u64 + 7) / 8;
    f.push(chunked("marks", format!("all {} texts of up to {} pieces out of {:?}, as name, pattern, key, value, tag and message (8 patterns per file), in {} spellings", texts.len(), if quick { 3 } else { 4 }, MARKS, Style::all().len()), n, 4, move |i, l| check_file(&marked(i, 8, &texts), &Style::all(), l)));
    f.extend(edited(quick));
    f.extend(wrapped());
    f.push(bad_patterns(quick));
    f.push(def_sizes(quick));
    f.push(key_names(quick));
    f.push(nulls());
    // files: all lists of definitions out of a small pool
    let pool = file_pool();
    let seqs = all_sequences(pool.len(), if quick { 3 } else { 4 });
    f.push(chunked("files", format!("all {} files of up to {} definitions out of {}, in every spelling", seqs.len(), if quick { 3 } else { 4 }, pool.len()), seqs.len() as u64, 32, move |i, l| {
        let v = obj(&[("patterns", V::Arr(seqs[i as usize].iter().map(|&k| pool[k].clone()).collect()))]);
        check_file(&v, &Style::all(), l)
    }));
    f
}

/// null is no text, no uuid and no pattern; where a list or map is due it may be refused or stand for an empty one,
/// but is not the same as an absent field.
fn nulls() -> Family {
    let two = |name: &'static str, good: V| -> Choice { (name, vec![None, Some(good), Some(V::Null)]) };
    let defs: Vec<Choice> = vec![two("name", s("n")), two("uuid", s(U1)), two("pattern", s("a")), ("values", vec![None, Some(obj(&[("k", s("v"))])), Some(V::Null), Some(obj(&[("k", V::Null)]))]), ("tags", vec![None, Some(strs(&["t"])), Some(V::Null), Some(arr(&[V::Null])), Some(arr(&[s("t"), V::Null]))]), ("test_messages", vec![None, Some(arr(&[obj(&[("message", s("a"))])])), Some(V::Null), Some(arr(&[V::Null]))])];
    let tests: Vec<Choice> = vec![two("message", s("a")), ("values", vec![None, Some(obj(&[("k", s("v"))])), Some(V::Null), Some(obj(&[("k", V::Null)]))]), ("tags", vec![None, Some(strs(&["t"])), Some(V::Null), Some(arr(&[V::Null]))])];
    let files = vec![obj(&[("patterns", V::Null)]), obj(&[("patterns", arr(&[V::Null]))]), V::Null, obj(&[("patterns", arr(&[obj(&[("uuid", s(U1)), ("pattern", s("a"))]), V::Null]))])];
    fn filled(v: &V) -> V {
        match *v {
            V::Obj(ref o) => V::Obj(o.iter().map(|x| (x.0.clone(), match (&x.0[..], &x.1) {
                ("values", &V::Null) => obj(&[]),
                ("tags", &V::Null) | ("test_messages", &V::Null) | ("patterns", &V::Null) => arr(&[]),
                (_, v) => filled(v),
            })).collect()),
            V::Arr(ref a) => V::Arr(a.iter().map(filled).collect()),
            ref x => x.clone(),
        }
    }
    let (nd, nt, nf) = (product(&defs), product(&tests), files.len() as u64);
    let bound = format!("all {} definitions, {} test messages and {} files with null in place of every field or element, as JSON and YAML", nd, nt, nf);
    chunked("nulls", bound, nd + nt + nf, 16, move |i, l| {
        let def = if i < nd { Some(pick(&defs, i, "")) } else if i < nd + nt { Some(obj(&[("uuid", s(U1)), ("pattern", s("a")), ("test_messages", arr(&[pick(&tests, i - nd, "")]))])) } else { None };
        let v = match def { Some(ref d) => obj(&[("patterns", arr(&[d.clone()]))]), None => files[(i - nd - nt) as usize].clone() };
        let with_null = filled(&v) != v;
        let exp = doc::file(&filled(&v));
        l.outcome(&(with_null, format!("{:?}", exp.as_ref().map(|d| d.len()))));
        l.states += 1;
        for how in 0..3 {
            l.traces += 1;
            l.transitions += 1;
            let (text, got) = match how {
                0 => match def {
                    None => continue,
                    Some(ref d) => { let t = d.json(); let g = guard(|| Pattern::from_json(&t).map(|p| vec![p]).map_err(|e| e.to_string())); (t, g) }
                },
                1 => { let t = v.json(); let p = write(l, "json", &t); let g = load(&p).map(|r| r.map_err(|e| e.to_string())); (t, g) }
                _ => { let t = v.yaml_block(0, true); let p = write(l, "yaml", &t); let g = load(&p).map(|r| r.map_err(|e| e.to_string())); (t, g) }
            };
            logcap::take_errors();
            let script = || format!("{}\n{}\n", ["Pattern::from_json", "load_file on a .json file", "load_file on a .yaml file"][how], text);
            match (got, &exp) {
                (Err(e), _) => return violation(format!("reading panics: {}", e), script()),
                (Ok(Err(_)), &Err(_)) => {}
                (Ok(Err(e)), &Ok(_)) => if !with_null { return violation(format!("a correct definition is rejected: {}", e), script()) },
                (Ok(Ok(p)), &Err(_)) => return violation(format!("a defective definition is accepted: {:?}", p), script()),
                (Ok(Ok(p)), &Ok(ref d)) => {
                    if p.len() != d.len() {
                        return violation(format!("{} patterns are read instead of {}", p.len(), d.len()), script());
                    }
                    for (p, d) in p.into_iter().zip(d) {
                        if let Some(x) = def_differs(p, d) {
                            return violation(format!("null is read as something else than an empty list or map: {}", x), script());
                        }
                    }
                }
            }
        }
        Ok(())
    })
}

/// Keys, values, tags and names as people write them, and all short ones.
fn key_names(quick: bool) -> Family {
    let mut words: Vec<String> = ["HTTP_HOST", "HTTP_X_FORWARDED_FOR", "http.status", "Http-Status", "X-Real-IP", "SSH.USER", "sshd", ".classifier.class", ".classifier.rule_id", ".SDATA.meta.sequenceId", "PROGRAM", "HOST", "PID", "MESSAGE", "message", "usracct.username", "secevt.verdict", "REJECT", "key1", "key10", "key", "$HOST", "${HOST}", "@timestamp", "_id", "__name__", "user name", " padded ", "tab\t", "true", "false", "null", "~", "yes", "no", "on", "off", "1", "01", "-1", "1.5", "1e3", "0x1f", "0o17", "1_000", ".inf", ".nan", "NaN", "2016-01-01", "12:30", "<<", "=", "name", "uuid", "pattern", "values", "tags", "test_messages", "patterns", "\u{c1}rv\u{ed}z", "\u{130}", "\u{df}", "\u{fb01}", "e\u{301}", "\u{e9}"].iter().map(|x| x.to_string()).collect();
    for p in ["", "HTTP", "ssh", "X"].iter() {
        for sep in ["_", ".", "-", ":", "/", " ", "::", "..", "__"].iter() {
            for t in ["", "a", "Id", "ID"].iter() {
                words.push(format!("{}{}{}", p, sep, t));
            }
        }
    }
    words.extend(mc::strings::all_strings(&['A', 'a', '.', '_', '-', '0', ' ', ':', '#'], if quick { 3 } else { 4 }));
    let n = words.len() as u64;
    chunked("key-names", format!("{} words (as people write them, and all of up to {} characters over A a . _ - 0 blank : #) as name, key and value of the additional values, tag, message, expected key, value and tag, in JSON and in files", n, if quick { 3 } else { 4 }), n, 8, move |i, l| {
        let w = &words[i as usize][..];
        let t = obj(&[("message", s(w)), ("values", obj(&[(w, s("v")), ("k", s(w))])), ("tags", strs(&[w, "t"]))]);
        let mut v = obj(&[("name", s(w)), ("uuid", s(U1)), ("pattern", s("a")), ("values", obj(&[("0k", s(w)), (w, s("v"))])), ("tags", strs(&["t", w])), ("test_messages", arr(&[t]))]);
        if w == "k" || w == "0k" {
            v = obj(&[("name", s(w)), ("uuid", s(U1)), ("pattern", s("a")), ("values", obj(&[(w, s(w))]))]);
        }
        check_def(&v, &v.json(), l)?;
        check_file(&obj(&[("patterns", arr(&[v]))]), &Style::all(), l)
    })
}

/// Definitions whose pattern text has a mistake after and before long runs of characters of every width.
fn bad_patterns(quick: bool) -> Family {
    let k = if quick { 40 } else { 140 };
    let mut shapes: Vec<(usize, usize)> = (0..=k).flat_map(|a| (0..=k).map(move |b| (a, b))).collect();
    for n in ladder(1, 5000) {
        shapes.extend([(n, 0), (0, n), (n, 3), (3, n)]);
    }
    let bound = format!("{} pairs of lengths of the text before and after a mistake in the pattern text x 4 widths of characters on each side x 5 mistakes, the error log written", shapes.len());
    chunked("bad-patterns", bound, shapes.len() as u64, 16, move |i, l| {
        let (a, b) = shapes[i as usize];
        for x in ["a", "é", "€", "😀"] {
            for y in ["a", "é", "€", "😀"] {
                if (a == 0 || b == 0) && x != y && a + b > 0 {
                    continue;
                }
                for bad in ["%{", "%{XYZ}", "%{INT:}", "%{SET(\"", "%{INT(min_len=)}"] {
                    let v = obj(&[("name", s(&y.repeat(b % 50))), ("uuid", s(U1)), ("pattern", s(&format!("{}{}{}", x.repeat(a), bad, y.repeat(b))))]);
                    check_def(&v, &v.json(), l)?;
                }
            }
        }
        Ok(())
    })
}

/// Definitions and files of every size: numbers of values, tags, test messages, expectations and patterns, and lengths of every text.
fn def_sizes(quick: bool) -> Family {
    let ns = ladder(if quick { 34 } else { 300 }, if quick { 2100 } else { 70000 });
    let bound = format!("{} sizes up to {}: the number of values, tags, test messages, expected values, expected tags, pattern items and patterns, and the length of every text (4 widths of characters)", ns.len(), ns[ns.len() - 1]);
    Family::new("sizes", bound, ns.len() as u64, move |item, l| {
        let n = ns[item as usize];
        let def = |more: Vec<(&str, V)>| {
            let mut o = vec![("uuid", s(U1)), ("pattern", s("a"))];
            o.retain(|x| more.iter().all(|m| m.0 != x.0));
            o.extend(more);
            obj(&o)
        };
        let kv = V::Obj((0..n).map(|i| (format!("k{}", i), s(&format!("v{}", i)))).collect());
        let tags = V::Arr((0..n).map(|i| s(&format!("t{}", i))).collect());
        let same = V::Arr((0..n).map(|i| s(if i % 2 == 0 { "t" } else { "u" })).collect());
        let tests = V::Arr((0..n).map(|i| obj(&[("message", s(&format!("m{}", i))), ("values", obj(&[("k", s(&format!("v{}", i)))])), ("tags", strs(&[&format!("t{}", i)]))])).collect());
        let test = |more: Vec<(&str, V)>| {
            let mut o = vec![("message", s("a"))];
            o.retain(|x| more.iter().all(|m| m.0 != x.0));
            o.extend(more);
            arr(&[obj(&o), obj(&[("message", s("b"))])])
        };
        let mut all = vec![def(vec![("values", kv.clone())]), def(vec![("tags", tags.clone())]), def(vec![("tags", same.clone())]), def(vec![("test_messages", tests)]), def(vec![("test_messages", test(vec![("values", kv)]))]),
                           def(vec![("test_messages", test(vec![("tags", tags)]))]), def(vec![("test_messages", test(vec![("tags", same)]))]),
                           def(vec![("pattern", s(&(0..n).map(|i| format!("%{{INT:n{}}} ", i)).collect::<String>()))])];
        for unit in ["a", "é", "€", "😀"] {
            for pad in ["", "x"] {
                let x = format!("{}{}", pad, unit.repeat(n));
                // YAML ends a key of one line at 1024 characters
                let key = format!("{}{}", pad, unit.repeat(n.min(1000)));
                all.push(def(vec![("name", s(&x)), ("pattern", s(&x)), ("values", obj(&[("k", s(&x)), (&key, s("v"))])), ("tags", strs(&["t", &x])), ("test_messages", test(vec![("message", s(&x)), ("values", obj(&[("k", s(&x)), (&key, s("v"))])), ("tags", strs(&[&x, "t"]))]))]));
            }
        }
        for v in &all {
            check_def(v, &v.json(), l)?;
            check_file(&obj(&[("patterns", arr(&[v.clone()]))]), &[Style::JsonPretty, Style::YamlBlock, Style::YamlPlain], l)?;
        }
        if n <= 5001 {
            let many: Vec<V> = (0..n).map(|i| obj(&[("name", s(&format!("n{}", i))), ("uuid", s(&format!("{:032x}", i))), ("pattern", s(&format!("w{} %{{INT:n}}", i)))])).collect();
            check_file(&obj(&[("patterns", V::Arr(many.clone()))]), &[Style::Json, Style::YamlBlock], l)?;
            for at in [0, n / 2, n - 1] {
                let mut bad = many.clone();
                bad[at] = obj(&[("uuid", s(U1))]);
                check_file(&obj(&[("patterns", V::Arr(bad))]), &[Style::Json, Style::YamlBlock], l)?;
            }
        }
        Ok(())
    })
}

/// A full file whose keys and texts are far apart, so that edits make neither equal keys nor nulls.
fn edit_doc() -> V {
    obj(&[("patterns", arr(&[obj(&[
        ("name", s("x: é")), ("uuid", s(U1)), ("pattern", s("a%{INT:n}")), ("values", obj(&[("key", s("val")), ("other.one", s("1"))])), ("tags", strs(&["t1", "second"])),
        ("test_messages", arr(&[obj(&[("message", s("a1")), ("values", obj(&[("n", s("1"))])), ("tags", strs(&["t1"]))]), obj(&[("message", s("a22"))])]))])]))])
}

/// Every text that one edit makes of `t`: edit `i` of `edits(t)`.
fn edit(t: &[char], alphabet: &[char], i: usize) -> Vec<char> {
    let per = 1 + 2 * alphabet.len();
    let (pos, how) = (i / per, i % per);
    let mut v = t.to_vec();
    if how == 0 {
        if pos < v.len() { v.remove(pos); }
    } else if how <= alphabet.len() {
        v.insert(pos.min(t.len()), alphabet[how - 1]);
    } else if pos < v.len() {
        v[pos] = alphabet[how - 1 - alphabet.len()];
    }
    v
}

fn edits(t: &[char], alphabet: &[char]) -> usize {
    (t.len() + 1) * (1 + 2 * alphabet.len())
}

fn check_text_file(text: &str, ext: &str, l: &mut Local) -> Outcome {
    l.states += 1;
    l.traces += 1;
    l.transitions += 1;
    let yaml = ext != "json";
    let read = |real| if yaml { doc::read_yaml(text, real) } else { doc::read_json(text) };
    let null = read(false) == Some(None);
    let exp = match read(false) {
        Some(Some(v)) => doc::file(&v),
        _ => Err(Refuse::Other),
    };
    l.outcome(&format!("{:?}", exp));
    let path = write(l, ext, text);
    let script = || format!("load_file on a .{} file with the content\n{}\n({:?})\n", ext, text, text);
    let got = load(&path);
    logcap::take_errors();
    let judge = |p: &[Pattern], exp: &Result<Vec<Def>, Refuse>| -> Option<String> {
        match *exp {
            Err(_) => Some(format!("a defective file is accepted: {:?}", p)),
            Ok(ref d) if d.len() != p.len() => Some(format!("{} patterns are loaded instead of {}", p.len(), d.len())),
            Ok(ref d) => p.iter().zip(d).filter_map(|(p, d)| def_differs(p.clone(), d)).next().map(|x| format!("the file is read as something else: {}", x)),
        }
    };
    match got {
        // the YAML library's own panic on a node that it could not read
        Err(ref e) if yaml && yaml_panic(e) && l.is_known("yaml-bad-value") => Ok(()),
        Err(e) => violation(format!("loading panics: {}", e), script()),
        Ok(_) if null => Ok(()), // the format does not speak of null: not judged
        Ok(Err(e)) => match exp {
            Ok(_) => violation(format!("a correct file is rejected: {}", e), script()),
            Err(Refuse::Missing(f)) if !e.to_string().contains(f) => violation(format!("the field {} is missing, the error says {:?}", f, e.to_string()), script()),
            Err(_) => Ok(()),
        },
        Ok(Ok(p)) => match judge(&p, &exp) {
            None => Ok(()),
            // the YAML library hands out real numbers as texts
            Some(x) => match read(true) {
                Some(Some(v)) if yaml && judge(&p, &doc::file(&v)).is_none() && l.is_known("yaml-real-as-text") => Ok(()),
                _ => violation(x, script()),
            },
        },
    }
}

/// Any text as a definition: what it means is what the JSON library reads.
fn check_text_def(text: &str, l: &mut Local) -> Outcome {
    let exp = match doc::read_json(text) {
        Some(None) => return Ok(()), // the format does not speak of null
        Some(Some(v)) => doc::def(&v),
        None => Err(Refuse::Other),
    };
    l.states += 1;
    l.traces += 1;
    l.transitions += 1;
    l.outcome(&format!("{:?}", exp));
    let script = || format!("Pattern::from_json on\n{}\n({:?})\n", text, text);
    let got = guard(|| Pattern::from_json(text).map_err(|e| e.to_string()));
    logcap::take_errors();
    match (got, exp) {
        (Err(e), _) => violation(format!("reading the definition panics: {}", e), script()),
        (Ok(Ok(p)), Err(_)) => violation(format!("a defective definition is accepted: {:?}", p), script()),
        (Ok(Err(e)), Ok(_)) => violation(format!("a correct definition is rejected: {}", e), script()),
        (Ok(Err(e)), Err(Refuse::Missing(f))) if !e.contains(f) => violation(format!("the field {} is missing, the error says {:?}", f, e), script()),
        (Ok(Err(_)), Err(_)) => Ok(()),
        (Ok(Ok(p)), Ok(d)) => match def_differs(p, &d) {
            Some(x) => violation(format!("the definition is read as something else: {}", x), script()),
            None => Ok(()),
        },
    }
}

/// Texts that stand before, behind and around a definition or a file.
fn wrapped() -> Vec<Family> {
    let mut f = vec![];
    let pieces = ["", " ", "\n", "\t", "\r\n", "\u{b}", "\u{c}", "\u{0}", "\u{feff}", "\u{fffe}", "\u{a0}", "\u{2028}", ";", ",", ".", "{", "}", "[", "]", "(", ")", "\"", "'", "`", "//c\n", "/*c*/", "#c\n", "#!/bin/sh\n", "--- ", "---\n", "...\n", "%YAML 1.2\n---\n", "<!--c-->", ")]}',\n",
                  "while(1);", "null", "{}", "[]", "1", "true", "\u{1e}", "```json\n", "\u{ef}\u{bb}\u{bf}", "\u{200b}", "\u{1a}", "\u{4}", "export default ", "json:", "=", "\\", "\u{85}"];
    let def = obj(&[("uuid", s(U1)), ("pattern", s("a")), ("name", s("n"))]);
    let n = pieces.len() as u64;
    let file = obj(&[("patterns", arr(&[def.clone()]))]);
    let texts = vec![def.json(), def.json_pretty(0)];
    let files: Vec<(&str, String)> = vec![("json", file.json()), ("json", file.json_pretty(0)), ("yaml", Style::YamlBlock.text(&file)), ("yml", Style::YamlFlow.text(&file))];
    f.push(chunked("wrapped", format!("all pairs of {} texts (blanks, byte order marks, comments, brackets, values, separators, document marks) before and behind a definition and a file in JSON and YAML", n), n * n, 16, move |i, l| {
        let (before, behind) = (pieces[(i / n) as usize], pieces[(i % n) as usize]);
        for t in &texts {
            check_text_def(&format!("{}{}{}", before, t, behind), l)?;
            check_text_def(&format!("{}{}{}{}", before, before, t, behind), l)?;
        }
        for &(ext, ref t) in &files {
            check_text_file(&format!("{}{}{}", before, t, behind), ext, l)?;
        }
        Ok(())
    }));
    let texts = vec![def.json(), def.json_pretty(0)];
    f.push(chunked("wrapped-scalars", "every Unicode scalar value before, behind, inside the braces of and doubled around a definition".to_owned(), 0x110000, 2048, move |i, l| {
        let c = match std::char::from_u32(i as u32) {
            Some(c) => c,
            None => return Ok(()),
        };
        let t = &texts[0];
        check_text_def(&format!("{}{}", c, t), l)?;
        check_text_def(&format!("{}{}", t, c), l)?;
        check_text_def(&format!("{}{}{}", &t[..1], c, &t[1..]), l)?;
        check_text_def(&format!("{0}{0}{1}{0}", c, texts[1]), l)
    }));
    let full = match edit_doc() {
        V::Obj(o) => match o[0].1 { V::Arr(ref a) => a[0].clone(), _ => unreachable!() },
        _ => unreachable!(),
    };
    let letters: Vec<char> = " \n\t\r\u{0}\"\\{}[]:,/'ax1u0-+.e_\u{e9}\u{feff}\u{10ffff}#;*".chars().collect();
    for (name, text) in vec![("definition-edits", full.json_pretty(0)), ("definition-edits-compact", full.json())] {
        let t: Vec<char> = text.chars().collect();
        let letters = letters.clone();
        let n = edits(&t, &letters) as u64;
        f.push(chunked(name, format!("all {} definitions one edit (a character removed, replaced or put in, {} characters) away from a full one of {} characters", n, letters.len(), t.len()), n, 256, move |i, l| {
            let x: String = edit(&t, &letters, i as usize).into_iter().collect();
            check_text_def(&x, l)
        }));
    }
    f
}

fn yaml_panic(e: &str) -> bool {
    e.starts_with("bad value at ") && e.contains("/serde_yaml-")
}

fn edited(quick: bool) -> Vec<Family> {
    let mut f = vec![];
    let json_letters: Vec<char> = " \n\t\r\u{0}\"\\{}[]:,/'ax1u0-+.e_é\u{feff}\u{10ffff}".chars().collect();
    let yaml_letters: Vec<char> = " \n\t\r\u{0}\"\\{}[]:,/'ax1u0-+.e_é\u{feff}\u{10ffff}#&*!|>%@?`=<".chars().collect();
    for (name, ext, text, letters) in vec![
        ("json-edits", "json", edit_doc().json_pretty(0), json_letters.clone()),
        ("json-edits-compact", "json", edit_doc().json(), json_letters.clone()),
        ("yaml-edits", "yaml", Style::YamlBlock.text(&edit_doc()), yaml_letters.clone()),
        ("yaml-edits-plain", "yml", Style::YamlPlain.text(&edit_doc()), yaml_letters.clone()),
        ("yaml-edits-flow", "YAML", Style::YamlFlow.text(&edit_doc()), yaml_letters.clone()),
    ] {
        let t: Vec<char> = text.chars().collect();
        let n = edits(&t, &letters) as u64;
        f.push(chunked(name, format!("all {} files one edit (a character removed, replaced or put in, {} characters) away from a full file of {} characters", n, letters.len(), t.len()), n, 256, move |i, l| {
            let x: String = edit(&t, &letters, i as usize).into_iter().collect();
            check_text_file(&x, ext, l)
        }));
    }
    // the ways to write a scalar in YAML, in every place
    let scalars = ["word", "two words", "1.5", ".5", "5.", "1e3", "nan", "inf", "-inf", "NaN", ".nan", ".inf", "true", "false", "True", "yes", "no", "1", "-1", "+1", "0x1F", "0o17", "017", "1_0", "12345678901234567890", "2016-01-01", "1:2", "a:b",
                   "!!int 1", "!!int a", "!!int ''", "!!bool x", "!!bool true", "!!float x", "!!float 1.5", "!!null x", "!!str 1", "!!str 1.5", "!!str a", "!x 1", "!<tag:x> 1", "*a", "&a x", "&a 1", "&a [*a]", "'1.5'", "\"1.5\"", "'it''s'", "\"\\x41\"", "''", "|\n      t\n", ">\n      t\n", "|-\n      t", ">-\n      t\n      u",
                   "[]", "{}", "[a]", "{a: b}", "- a", "a: b", "? a", "%a", "@a", "`a", "#a", "a #b", "a\n      b", U1, U2, "%{INT:n}", "'%{INT:n}'"];
    let sn = scalars.len() as u64;
    f.push(chunked("yaml-scalars", format!("{} ways to write a scalar in YAML x 13 places x block and flow", sn), sn * 13 * 2, 64, move |i, l| {
        let (sc, place, flow) = (scalars[(i / 26) as usize], (i / 2 % 13) as usize, i % 2 == 1);
        let p = |k: usize| if k == place { sc } else { ["nn", U1, "aa", "kk", "vv", "tt", "mm", "k", "v", "t", "patterns", "name", "message"][k] };
        let text = if flow {
            format!("{{{}: [{{{}: {}, uuid: {}, pattern: {}, values: {{{}: {}}}, tags: [{}, u], test_messages: [{{{}: {}, values: {{{}: {}}}, tags: [{}]}}]}}]}}\n", p(10), p(11), p(0), p(1), p(2), p(3), p(4), p(5), p(12), p(6), p(7), p(8), p(9))
        } else {
            format!("{}:\n- {}: {}\n  uuid: {}\n  pattern: {}\n  values:\n    {}: {}\n  tags:\n  - {}\n  - u\n  test_messages:\n  - {}: {}\n    values:\n      {}: {}\n    tags:\n    - {}\n", p(10), p(11), p(0), p(1), p(2), p(3), p(4), p(5), p(12), p(6), p(7), p(8), p(9))
        };
        check_text_file(&text, "yaml", l)
    }));
    if !quick {
        let doc = obj(&[("patterns", arr(&[obj(&[("uuid", s(U2)), ("pattern", s("a")), ("tags", strs(&["t"])), ("test_messages", arr(&[obj(&[("message", s("a"))])]))])]))]);
        for (name, ext, text, letters) in vec![
            ("json-double-edits", "json", doc.json(), " \"\\{}[]:,1"),
            ("yaml-double-edits", "yaml", Style::YamlPlain.text(&doc), " \n\"':-[{#!&|1"),
        ] {
            let t: Vec<char> = text.chars().collect();
            let letters: Vec<char> = letters.chars().collect();
            let n = edits(&t, &letters) as u64;
            f.push(chunked(name, format!("all {} pairs of edits ({} characters) of a file of {} characters", n * n, letters.len(), t.len()), n * n, 4096, move |i, l| {
                let x = edit(&t, &letters, (i / n) as usize);
                let x: String = edit(&x, &letters, (i % n) as usize).into_iter().collect();
                check_text_file(&x, ext, l)
            }));
        }
    }
    f
}

fn file_pool() -> Vec<V> {
    vec![
        obj(&[("uuid", s(U1)), ("pattern", s("a"))]),
        obj(&[("pattern", s("a %{INT:n}")), ("name", s("second")), ("uuid", s(U2)), ("tags", strs(&["t"])), ("values", obj(&[("k", s("v"))]))]),
        obj(&[("uuid", s(U3)), ("pattern", s("é%{GREEDY:g}")), ("test_messages", arr(&[obj(&[("message", s("éx")), ("values", obj(&[("g", s("x"))])), ("tags", arr(&[]))]), obj(&[("message", s("é"))])]))]),
        obj(&[("pattern", s("a"))]),
        obj(&[("uuid", s(U1))]),
        obj(&[("uuid", s(U1)), ("pattern", s("%{"))]),
        obj(&[("uuid", s(U1)), ("pattern", s("a")), ("test_messages", arr(&[obj(&[])]))]),
        obj(&[("uuid", s(U1)), ("pattern", s("a")), ("unknown", s("x"))]),
        s("a"),
    ]
}

// ---------------------------------------------------------------- files, C13

#[derive(Clone, Copy, PartialEq, Debug)]
enum Style {
    Json,
    JsonPretty,
    YamlBlock,
    YamlPlain,
    YamlFlow,
    YamlIsJson,
    YamlDocument,
}

impl Style {
    fn all() -> [Style; 7] {
        [Style::Json, Style::JsonPretty, Style::YamlBlock, Style::YamlPlain, Style::YamlFlow, Style::YamlIsJson, Style::YamlDocument]
    }
    fn text(self, v: &V) -> String {
        match self {
            Style::Json => v.json(),
            Style::JsonPretty => v.json_pretty(0),
            Style::YamlBlock => format!("{}\n", v.yaml_block(0, false)),
            Style::YamlPlain => format!("{}\n", v.yaml_block(0, true)),
            Style::YamlFlow => format!("{}\n", v.yaml_flow()),
            Style::YamlIsJson => v.json_pretty(0),
            Style::YamlDocument => format!("---\n{}\n", v.yaml_block(0, false)),
        }
    }
    fn ext(self) -> &'static str {
        match self {
            Style::Json | Style::JsonPretty => "json",
            Style::YamlBlock => "yaml",
            Style::YamlPlain => "yml",
            Style::YamlFlow => "YAML",
            _ => "YML",
        }
    }
}

fn write(l: &Local, ext: &str, text: &str) -> String {
    let p = engine::scratch().join(format!("w{}.{}", l.worker, ext));
    std::fs::write(&p, text).expect("write scratch file");
    p.to_str().unwrap().to_owned()
}

fn load(path: &str) -> Result<Result<Vec<Pattern>, BuildError>, String> {
    guard(|| PatternLoader::load_file(path).map(|f| f.patterns().clone()))
}

fn check_file(v: &V, styles: &[Style], l: &mut Local) -> Outcome {
    let exp = doc::file(v);
    l.outcome(&format!("{:?}", exp.as_ref().map(|d| d.iter().map(|d| (d.name.is_some(), d.tests.as_ref().map(|t| t.len()), d.tokens.len())).collect::<Vec<_>>())));
    for st in styles {
        l.states += 1;
        l.traces += 1;
        l.transitions += 1;
        let text = st.text(v);
        let path = write(l, st.ext(), &text);
        let script = || format!("load_file on a .{} file with the content\n{}\n", st.ext(), text);
        let got = load(&path);
        logcap::take_errors();
        let kind = |e: &BuildError| match *e {
            BuildError::DeserJson(_) => st.ext() == "json",
            BuildError::DeserYaml(_) => st.ext() != "json",
            _ => false,
        };
        match (got, &exp) {
            (Err(e), _) => return violation(format!("loading panics: {}", e), script()),
            (Ok(Ok(p)), &Err(_)) => return violation(format!("a defective file is accepted: {:?}", p), script()),
            (Ok(Err(e)), &Ok(_)) => return violation(format!("a correct file is rejected: {}", e), script()),
            (Ok(Err(e)), &Err(ref r)) => {
                if !kind(&e) {
                    return violation(format!("the error {:?} is of the wrong kind", e), script());
                }
                if let Refuse::Missing(f) = *r {
                    if !e.to_string().contains(f) {
                        return violation(format!("the field {} is missing, the error says {:?}", f, e.to_string()), script());
                    }
                }
            }
            (Ok(Ok(p)), &Ok(ref d)) => {
                if p.len() != d.len() {
                    return violation(format!("{} patterns are loaded instead of {}", p.len(), d.len()), script());
                }
                for (i, (p, d)) in p.into_iter().zip(d).enumerate() {
                    if let Some(x) = def_differs(p, d) {
                        return violation(format!("entry {} is read as something else: {}", i, x), script());
                    }
                }
            }
        }
    }
    Ok(())
}

/// Everything a user can see of a loaded pattern.
fn view(mut p: Pattern) -> String {
    let cp: Vec<String> = p.pattern().iter().map(|t| match *t {
        TokenType::Literal(ref l) => format!("{:?}", l),
        TokenType::Parser(ref p) => format!("{:?}/{:x}", p.name(), p.hash_os()),
    }).collect();
    let head = format!("{:?} {} {:?} {:?} {:?}", p.name(), p.uuid(), cp, p.values(), p.tags());
    format!("{} {:?}", head, tests_of(&mut p))
}

fn json_view(v: &V, l: &Local) -> Option<Vec<String>> {
    let path = write(l, "json", &v.json());
    load(&path).ok().and_then(|r| r.ok()).map(|p| p.into_iter().map(view).collect())
}

/// The same document in every spelling gives the same list of patterns or is rejected every time.
fn same_files(v: &V, l: &mut Local) -> Outcome {
    let mut first: Option<(Style, Option<Vec<String>>)> = None;
    for st in Style::all().iter() {
        l.traces += 1;
        l.transitions += 1;
        let text = st.text(v);
        let path = write(l, st.ext(), &text);
        let got = load(&path);
        logcap::take_errors();
        let script = || format!("load_file on a .{} file with the content\n{}\n", st.ext(), text);
        let seen = match got {
            Err(e) => return violation(format!("loading panics: {}", e), script()),
            Ok(Ok(p)) => Some(p.into_iter().map(view).collect::<Vec<_>>()),
            Ok(Err(BuildError::DeserJson(_))) | Ok(Err(BuildError::DeserYaml(_))) => None,
            Ok(Err(e)) => return violation(format!("the error {:?} is of the wrong kind", e), script()),
        };
        match first {
            None => {
                l.states += 1;
                l.outcome(&seen.as_ref().map(|v| (v.len(), v.iter().map(|x| x.len()).sum::<usize>())));
                first = Some((*st, seen));
            }
            // the YAML library hands out real numbers as texts
            Some((_, None)) if seen.is_some() && v.has_real() && seen == json_view(&v.reals_as_text(), l) && l.is_known("yaml-real-as-text") => {}
            Some((f, ref exp)) => if *exp != seen {
                let tell = |x: &Option<Vec<String>>| x.as_ref().map_or("rejected".to_owned(), |v| format!("{:#?}", v));
                return violation("the same document in two spellings is read differently".to_owned(),
                                 format!("{:?}\n{}\nis {}\n\n{:?}\n{}\nis {}\n", f, f.text(v), tell(exp), st, text, tell(&seen)));
            },
        }
    }
    Ok(())
}

/// Whole outcome of from_file in both matchers, in every spelling.
fn same_matchers(v: &V, msgs: &[&str], l: &mut Local) -> Outcome {
    let mut first: Option<(Style, Vec<String>)> = None;
    for st in Style::all().iter() {
        let text = st.text(v);
        let path = write(l, st.ext(), &text);
        let mut seen = vec![];
        for k in KINDS.iter() {
            l.traces += 1;
            l.transitions += msgs.len() as u64 * 2 + 2;
            let r = guard(|| {
                let a = from_file(*k, &path, false).map(|m| msgs.iter().map(|x| ask_any(&*m, x)).collect::<Vec<_>>());
                let b = from_file(*k, &path, true).map(|m| msgs.iter().map(|x| ask_any(&*m, x)).collect::<Vec<_>>());
                (a.map_err(|e| sort(&e)), b.map_err(|e| sort(&e)))
            });
            match r {
                Err(e) => return violation(format!("loading panics: {}", e), format!("from_file on a .{} file with\n{}\n", st.ext(), text)),
                Ok(x) => seen.push(format!("{:?} {:?}", k, x)),
            }
        }
        logcap::take_errors();
        l.outcome(&seen);
        match first {
            None => { l.states += 1; first = Some((*st, seen)) }
            Some((f, ref exp)) => if *exp != seen {
                return violation("the same document in two spellings gives different matchers".to_owned(),
                                 format!("{:?}\n{}\ngives {:?}\n\n{:?}\n{}\ngives {:?}\n", f, f.text(v), exp, st, text, seen));
            },
        }
    }
    Ok(())
}

fn sort(e: &BuildError) -> String {
    match *e {
        BuildError::DeserJson(_) | BuildError::DeserYaml(_) => "malformed".to_owned(),
        ref e => e.to_string(),
    }
}

fn ask_any(m: &dyn Matcher, msg: &str) -> Option<(String, Vec<(String, String)>)> {
    m.parse(msg).map(|r| (r.pattern().uuid().simple().to_string(), real::owned_values(r.values())))
}

fn from_file(k: Kind, path: &str, lenient: bool) -> Result<Box<dyn Matcher>, BuildError> {
    fn bx<M: Matcher + 'static>(m: Result<M, BuildError>) -> Result<Box<dyn Matcher>, BuildError> {
        m.map(|m| Box::new(m) as Box<dyn Matcher>)
    }
    match (k, lenient) {
        (Kind::Trie, false) => bx(PatternLoader::from_file::<TrieMatcherFactory>(path)),
        (Kind::Trie, true) => bx(PatternLoader::from_file_ignore_errors::<TrieMatcherFactory>(path)),
        (Kind::SuffixArray, false) => bx(PatternLoader::from_file::<SuffixArrayMatcherFactory>(path)),
        (Kind::SuffixArray, true) => bx(PatternLoader::from_file_ignore_errors::<SuffixArrayMatcherFactory>(path)),
    }
}

/// Fewer contents per field than in C12: the documents are written in seven spellings.
fn small_choices() -> Vec<Choice> {
    vec![
        ("name", vec![None, Some(s("SSH: x")), Some(V::Num(1))]),
        ("uuid", vec![None, Some(s(U1)), Some(s(U2)), Some(s("9a49c47d"))]),
        ("pattern", vec![None, Some(s("a")), Some(s("é %{INT:n}: \"x\" \\ 'y' #z\n")), Some(s("%{SET(\"ab\",min_len=1):s} %{GREEDY:g};")), Some(s("a%{XYZ}")), Some(V::Bool(true))]),
        ("values", vec![None, Some(obj(&[])), Some(obj(&[("key", s("v")), ("é: x", s("- w\n")), ("l", s("123"))])), Some(obj(&[("k", V::Num(1))]))]),
        ("tags", vec![None, Some(arr(&[])), Some(strs(&["tag", "u v", "123", "true", "~", ""])), Some(arr(&[s("t"), V::Num(1)]))]),
        ("test_messages", vec![None, Some(arr(&[])), Some(arr(&[obj(&[("message", s("a 1")), ("values", obj(&[("k", s("v"))])), ("tags", strs(&["tag"]))]), obj(&[("message", s("#b"))])])), Some(arr(&[obj(&[])])), Some(arr(&[obj(&[("message", s("x")), ("field", s("y"))])]))]),
        ("", vec![None, Some(obj(&[("unknown", s("x"))]))]),
    ]
}

/// Texts made of what means something to YAML or JSON outside of quotes.
const MARKS: [&str; 16] = ["\"", "'", " #", "\\", ": ", "- ", "{", "]", ", ", "\n", "x", "&a", "*a", "!", "|", "%"];

fn marked(i: u64, per: u64, texts: &[Vec<usize>]) -> V {
    let mut pats = vec![];
    for q in texts.iter().skip((i * per) as usize).take(per as usize) {
        let t: String = q.iter().map(|&k| MARKS[k]).collect();
        // in a pattern an item begins with "%{"
        let p = t.replace("%{", "%\\{");
        let p = if p.is_empty() { "a".to_owned() } else { p };
        pats.push(obj(&[("name", s(&t)), ("uuid", s(&real::uuid(pats.len()).hyphenated().to_string())), ("pattern", s(&p)), ("values", obj(&[(&t[..], s(&t)), ("k", s("v"))])), ("tags", strs(&[&t, "x", &t])),
                        ("test_messages", arr(&[obj(&[("message", s(&t)), ("values", obj(&[(&t[..], s(&t))])), ("tags", strs(&[&t]))])]))]));
    }
    obj(&[("patterns", V::Arr(pats))])
}

/// Words that mean something to YAML at the start of a line, joined by blanks where a line may be broken.
const WORDS: [&str; 24] = ["a", "b1", "...", "...b", "---", "---b", "#", "#c", "-", "- a", "?", "? k", ":", "k:", "%x", "%YAML", "[a", "}", "&a", "*a", "!t", "|", ">", "patterns:"];

/// One pattern whose texts are all `t`, written in ways of YAML that JSON does not have.
fn spelled(t: &str) -> Vec<(&'static str, String)> {
    // in a pattern an item begins with "%{"
    let q = |brk: &str| format!("\"{}\"", t.replace('\\', "\\\\").replace('"', "\\\"").replace(' ', brk));
    let sq = |brk: &str| format!("'{}'", t.replace('\'', "''").replace(' ', brk));
    let flow = |x: &str| format!("{{patterns: [{{name: {0}, uuid: {1}, pattern: {0}, values: {{k: {0}}}, tags: [{0}, {0}], test_messages: [{{message: {0}, tags: [{0}]}}]}}]}}\n", x, U1);
    let block = |x: &str, nl: &str| format!("patterns:{1}  - name: {0}{1}    uuid: {2}{1}    pattern: {0}{1}    values:{1}      k: {0}{1}    tags:{1}      - {0}{1}      - x{1}    test_messages:{1}      - message: {0}{1}", x, nl, U1);
    // block scalars: the text on lines of its own, deeper than all keys
    let lines = t.replace(' ', "\n            ");
    let scalar = |head: &str| block(&format!("{}\n            {}", head, lines), "\n");
    vec![
        ("flow, folded", flow(&q("\n"))),
        ("flow, folded, indented by 1", flow(&q("\n "))),
        ("flow, folded, indented by 4", flow(&q("\n    "))),
        ("flow, folded with an empty line", flow(&q("\n\n"))),
        ("flow, folded, blank at the end of the line", flow(&q(" \n"))),
        ("flow, escaped line breaks", flow(&q("\\\n\\ "))),
        ("flow, single-quoted, folded", flow(&sq("\n"))),
        ("flow, single-quoted, folded, indented", flow(&sq("\n  "))),
        ("flow, plain, folded", flow(&t.replace(' ', "\n"))),
        ("block, folded", block(&q("\n              "), "\n")),
        ("block, single-quoted", block(&sq(" "), "\n")),
        ("block, plain", block(t, "\n")),
        ("block, plain, folded", block(&t.replace(' ', "\n              "), "\n")),
        ("block, comments", block(&format!("{} # {}", q(" "), t), "\n")),
        ("block, comment lines", block(&q(" "), &format!("\n# {}\n", t))),
        ("block, indented comment lines", block(&q(" "), &format!("\n                # {}\n", t))),
        ("block, empty lines", block(&q(" "), "\n\n")),
        ("block, CRLF", block(&q(" "), "\r\n")),
        ("literal", scalar("|")),
        ("literal, stripped", scalar("|-")),
        ("literal, kept", scalar("|+")),
        ("folded", scalar(">")),
        ("literal, blank at the end of each line", block(&format!("|\n            {} ", t.replace(' ', " \n            ")), "\n")),
        ("literal, tab at the end of each line", block(&format!("|\n            {}\t", t.replace(' ', "\t\n            ")), "\n")),
        ("literal, blanks in front of each line but the first", block(&format!("|\n            {}", t.replace(' ', "\n              ")), "\n")),
        ("literal, indented by its head", block(&format!("|9\n             {}", t.replace(' ', "\n             ")), "\n")),
        ("literal, empty lines", block(&format!("|\n            {}", t.replace(' ', "\n\n            ")), "\n")),
        ("literal, empty lines at the end, stripped", block(&format!("|-\n            {}\n\n\n", t.replace(' ', "\n            ")), "\n")),
        ("literal, empty lines at the end, kept", block(&format!("|+\n            {}\n\n\n", t.replace(' ', "\n            ")), "\n")),
        ("literal, comment at its head", block(&format!("| # c\n            {}", t.replace(' ', "\n            ")), "\n")),
        ("literal, no line break at the end of the file", format!("patterns:\n  - uuid: {}\n    pattern: a\n    name: |\n      {}", U1, t.replace(' ', " \n      "))),
        ("folded, blank at the end of each line", block(&format!(">\n            {} ", t.replace(' ', " \n            ")), "\n")),
        ("folded, some lines deeper", block(&format!(">\n            {}", t.replace(' ', "\n              ")), "\n")),
        ("folded, empty lines, kept", block(&format!(">+\n            {}\n\n", t.replace(' ', "\n\n            ")), "\n")),
        ("folded, CRLF", block(&format!(">\r\n            {}", t.replace(' ', "\r\n            ")), "\r\n")),
        ("double-quoted, tabs and escapes", block(&q("\\t\\n \\r\\0"), "\n")),
        ("double-quoted, blanks at the ends", block(&format!("\" {} \"", t.replace('\\', "\\\\").replace('"', "\\\"")), "\n")),
        ("double-quoted, two blanks", block(&q("  "), "\n")),
        ("single-quoted, tab", block(&sq("\t"), "\n")),
        ("plain, two blanks", block(&t.replace(' ', "  "), "\n")),
        ("blanks at the ends of the lines", block(&q(" "), "  \n")),
        ("tabs at the ends of the lines", block(&q(" "), "\t\n")),
        ("folded, stripped", scalar(">-")),
        ("document marks", format!("---\n{}...\n", block(&q(" "), "\n"))),
        ("document mark and comment", format!("# {0}\n--- # {0}\n{1}... # {0}\n# {0}\n", t, block(&q(" "), "\n"))),
        ("directive", format!("%YAML 1.2\n---\n{}", block(&q(" "), "\n"))),
        ("tagged", block(&format!("!!str {}", q(" ")), "\n")),
        ("anchors and aliases", format!("patterns:\n  - name: &n {0}\n    uuid: &u {1}\n    pattern: *n\n    values: &v\n      k: *n\n    tags: &t\n      - *n\n    test_messages:\n      - message: *n\n        values: *v\n        tags: *t\n", q(" "), U1)),
        ("explicit keys", format!("? patterns\n: - ? name\n    : {0}\n    ? uuid\n    : {1}\n    ? pattern\n    : {0}\n", q(" "), U1)),
        ("text as key", format!("{{patterns: [{{uuid: {1}, pattern: x, values: {{{0}: {0}}}, test_messages: [{{message: x, values: {{? {0} : {0}}}}}]}}]}}", q(" "), U1)),
        ("followed by another document", format!("{}---\n{}", block(&q(" "), "\n"), t)),
        ("preceded by another document", format!("--- {}\n---\n{}", q(" "), block(&q(" "), "\n"))),
    ]
}

/// What a YAML text means is what the YAML library reads; the loader gives what it gives for the same in JSON.
fn as_read(what: &str, text: &str, l: &mut Local) -> Outcome {
    let v = match (doc::read_yaml(text, false), doc::read_yaml(text, true)) {
        (None, _) => None,
        // null: the format does not speak of it; real numbers: a finding on its own
        (Some(None), _) => return Ok(()),
        (a, b) if a != b => return Ok(()),
        (Some(v), _) => v,
    };
    l.traces += 1;
    l.transitions += 1;
    let exp = v.as_ref().and_then(|v| json_view(v, l));
    let path = write(l, "yaml", text);
    let got = load(&path);
    logcap::take_errors();
    let script = || format!("load_file on a .yaml file ({}) with the content\n{}\n", what, text);
    let seen = match got {
        Err(e) => return violation(format!("loading panics: {}", e), script()),
        Ok(Ok(p)) => Some(p.into_iter().map(view).collect::<Vec<_>>()),
        Ok(Err(BuildError::DeserYaml(_))) => None,
        Ok(Err(e)) => return violation(format!("the error {:?} is of the wrong kind", e), script()),
    };
    l.outcome(&(what, seen.as_ref().map(|v| v.len())));
    if exp != seen {
        return violation(format!("the YAML text is read as {:?}, its contents in JSON as {:?}", seen, exp), script() + &v.map_or("not a single document".to_owned(), |v| v.json()));
    }
    Ok(())
}

fn c13(tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let mut f = vec![];
    let seqs = all_sequences(WORDS.len(), if quick { 2 } else { 3 });
    let per = spelled("a").len();
    f.push(chunked("spellings", format!("all {} texts of up to {} of {} words that mean something to YAML, joined by blanks, with a word in front and behind, in {} ways of writing that only YAML has (folded, literal, plain and quoted scalars, comments, anchors, tags, directives, document marks, explicit keys)", seqs.len(), if quick { 2 } else { 3 }, WORDS.len(), per), seqs.len() as u64, 8, move |i, l| {
        let t: Vec<&str> = seqs[i as usize].iter().map(|&k| WORDS[k]).collect();
        let t = t.join(" ");
        for t in [t.clone(), format!("a {}", t), format!("a {} b", t)] {
            l.states += 1;
            for (what, text) in spelled(&t) {
                as_read(what, &text, l)?;
            }
        }
        Ok(())
    }));
    let texts = all_sequences(MARKS.len(), if quick { 3 } else { 4 });
    let n = (texts.len() as u64 + 7) / 8;
    f.push(chunked("marks", format!("all {} texts of up to {} pieces out of {:?}, as name, pattern, key, value, tag and message (8 patterns per file), in {} spellings", texts.len(), if quick { 3 } else { 4 }, MARKS, Style::all().len()), n, 4, move |i, l| same_files(&marked(i, 8, &texts), l)));
    let ch = small_choices();
    let n = product(&ch);
    f.push(chunked("documents", format!("all {} one-pattern files of the field choices in {} spellings", n, Style::all().len()), n, 32, move |i, l| {
        let v = obj(&[("patterns", arr(&[pick(&ch, i, "")]))]);
        l.sample(|| Style::YamlPlain.text(&v));
        same_files(&v, l)
    }));
    let ch = test_choices();
    let n = product(&ch);
    f.push(chunked("test-messages", format!("all {} test messages of the field choices in {} spellings", n, Style::all().len()), n, 32, move |i, l| {
        let v = obj(&[("patterns", arr(&[obj(&[("uuid", s(U1)), ("pattern", s("a")), ("test_messages", arr(&[pick(&ch, i, "field")]))])]))]);
        same_files(&v, l)
    }));
    let pool = file_pool();
    let seqs = all_sequences(pool.len(), if quick { 3 } else { 4 });
    f.push(chunked("files", format!("all {} files of up to {} definitions out of {}", seqs.len(), if quick { 3 } else { 4 }, pool.len()), seqs.len() as u64, 32, move |i, l| {
        let v = obj(&[("patterns", V::Arr(seqs[i as usize].iter().map(|&k| pool[k].clone()).collect()))]);
        same_files(&v, l)
    }));
    // every printable ASCII character and others in every text position
    let mut chars: Vec<char> = (0x20u8..0x7f).map(|b| b as char).collect();
    chars.extend(['\n', '\t', 'é', '€', '😀', '\u{a0}'].iter());
    let cn = chars.len() as u64;
    f.push(chunked("characters", format!("{} characters, alone, doubled and between letters, as pattern, name, tag, value, key and message", cn), cn, 2, move |i, l| {
        let c = chars[i as usize];
        for t in [format!("{}", c), format!("{}{}", c, c), format!("a{}b", c), format!("a {} b", c), format!("{}a", c), format!("a{}", c)].iter() {
            let v = obj(&[("patterns", arr(&[obj(&[("name", s(t)), ("uuid", s(U1)), ("pattern", s(t)), ("values", obj(&[(&t[..], s(t))])), ("tags", strs(&[t, "x"])),
                                                   ("test_messages", arr(&[obj(&[("message", s(t)), ("values", obj(&[(&t[..], s(t))])), ("tags", strs(&[t]))])]))])]))]);
            same_files(&v, l)?;
            same_matchers(&v, &[t, "a"], l)?;
        }
        Ok(())
    }));
    // every Unicode scalar value, 64 of them in each text
    f.push(Family::new("scalars", "every Unicode scalar value but the controls (64 in each text), raw, in names, patterns, keys, values, tags and messages".to_owned(), 0x110000 / 64, |i, l| {
        let t: String = (i as u32 * 64..i as u32 * 64 + 64).filter_map(std::char::from_u32).filter(|c| (*c as u32) >= 0x20 && !(0x7f..0xa0).contains(&(*c as u32)) || *c == '\u{85}').collect();
        if t.is_empty() {
            return Ok(());
        }
        let p = t.replace("%{", "%\\{");
        let v = obj(&[("patterns", arr(&[obj(&[("name", s(&t)), ("uuid", s(U1)), ("pattern", s(&p)), ("values", obj(&[(&t[..], s(&t))])), ("tags", strs(&[&t, "x"])),
                                               ("test_messages", arr(&[obj(&[("message", s(&t)), ("values", obj(&[(&t[..], s(&t))])), ("tags", strs(&[&t]))])]))])]))]);
        same_files(&v, l)
    }));
    // every kind of value in every place
    let odd = vec![V::Float("1.5"), V::Float("-0.25"), V::Float("1e3"), V::Num(0), V::Num(-7), V::Bool(true), V::Bool(false), arr(&[]), obj(&[]), strs(&["a"]), obj(&[("a", s("b"))]), s(""), s("1.5"), s("1"), s("true"), s("null"), s("~"), s("- a"), s("a: b"), s("#"), s("1e3"), s("0x1"), s("yes"), s("---"), s(" a"), s("a ")];
    let on = odd.len() as u64;
    f.push(chunked("kinds", format!("{} values of every kind in each of 12 places", on), on * 12, 8, move |i, l| {
        let (o, place) = (&odd[(i / 12) as usize], i % 12);
        let p = |k: u64, d: V| if k == place { o.clone() } else { d };
        let test = obj(&[("message", p(0, s("m"))), ("values", p(1, obj(&[("k", p(2, s("v")))]))), ("tags", p(3, arr(&[p(4, s("t"))])))]);
        let def = obj(&[("name", p(5, s("n"))), ("uuid", p(6, s(U1))), ("pattern", p(7, s("a"))), ("values", p(8, obj(&[("k", p(9, s("v")))]))), ("tags", p(10, arr(&[p(11, s("t"))]))), ("test_messages", arr(&[test]))]);
        same_files(&obj(&[("patterns", arr(&[def]))]), l)
    }));
    // matchers built from the files
    let pool: Vec<V> = vec![
        obj(&[("uuid", s("ac000000-0000-0000-0000-000000000001")), ("pattern", s("a")), ("test_messages", arr(&[obj(&[("message", s("a"))])]))]),
        obj(&[("uuid", s("ac000000-0000-0000-0000-000000000002")), ("pattern", s("a%{INT:n}")), ("values", obj(&[("k", s("v"))])), ("test_messages", arr(&[obj(&[("message", s("a1")), ("values", obj(&[("n", s("1")), ("k", s("v"))]))])]))]),
        obj(&[("uuid", s("ac000000-0000-0000-0000-000000000003")), ("pattern", s("%{GREEDY:g}")), ("tags", strs(&["t"])), ("test_messages", arr(&[obj(&[("message", s("zz")), ("tags", strs(&["t"]))])]))]),
        obj(&[("uuid", s("ac000000-0000-0000-0000-000000000004")), ("pattern", s("%{SET(\"ab\"):s}")), ("test_messages", arr(&[obj(&[("message", s("b")), ("values", obj(&[("s", s("b"))]))])]))]),
        obj(&[("uuid", s("ac000000-0000-0000-0000-000000000005")), ("pattern", s("%{SET(\"ab\"):s}1")), ("test_messages", arr(&[obj(&[("message", s("a1"))])]))]),
        obj(&[("uuid", s("ac000000-0000-0000-0000-000000000006")), ("pattern", s("a")), ("test_messages", arr(&[obj(&[("message", s("a")), ("tags", strs(&["none"]))])]))]),
    ];
    let k = if quick { 4 } else { 5 };
    let seqs = all_sequences(pool.len(), k);
    f.push(chunked("matchers", format!("all {} files of up to {} patterns out of {} with test messages, strict and lenient, both matchers", seqs.len(), k, pool.len()), seqs.len() as u64, 8, move |i, l| {
        let v = obj(&[("patterns", V::Arr(seqs[i as usize].iter().map(|&k| pool[k].clone()).collect()))]);
        same_matchers(&v, &["a", "a1", "b", "b1", "1", "zz", ""], l)
    }));
    f
}

// ---------------------------------------------------------------- C15, C16, C17

#[derive(Clone, Debug)]
struct Pat {
    /// its uuid's number when that is not its position
    uid: Option<usize>,
    /// its name when that is not "name <position>"
    name: Option<Option<String>>,
    tokens: Tokens,
    values: Option<Map>,
    tags: Option<Vec<String>>,
    tests: Option<Vec<TestMsg>>,
}

#[derive(Clone, Debug)]
enum Src {
    Pat(Pat),
    /// an item that could not be read; the number tells them apart
    Broken(usize),
}

/// The unreadable items from here on have texts a program could treat specially.
const ODD: usize = 1 << 30;
const ODD_TEXTS: [&str; 8] = ["", " ", "\n", "{}", "%s", "\u{0}", "a\nb", "é"];

fn broken(kind: usize) -> BuildError {
    if kind >= ODD {
        let k = kind - ODD;
        return if k < ODD_TEXTS.len() { BuildError::Io(io::Error::new(io::ErrorKind::NotFound, ODD_TEXTS[k])) }
               else { BuildError::TestMessage(testmessage::Error::TestMessageDoesntMatch { pattern_uuid: ODD_TEXTS[k - ODD_TEXTS.len()].to_owned(), message: String::new() }) };
    }
    match kind % 4 {
        0 => BuildError::Io(io::Error::new(io::ErrorKind::Other, format!("broken item {}", kind))),
        1 => BuildError::UnsupportedFileExtension,
        2 => BuildError::TestMessage(testmessage::Error::KeyNotFound { pattern_uuid: format!("broken item {}", kind), key: "k".to_owned() }),
        _ => BuildError::NotUtf8FileName,
    }
}

thread_local!(static CLONED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

/// The same family with sources that give clones of the patterns.
fn cloned(mut x: Family) -> Family {
    x.name.push_str("-cloned");
    x.bound.push_str(", the source gives clones of clones of the patterns");
    let run = x.run;
    x.run = Box::new(move |i, l| {
        CLONED.with(|c| c.set(true));
        let r = run(i, l);
        CLONED.with(|c| c.set(false));
        r
    });
    x
}

fn source(items: &[Src]) -> Vec<BuildResult> {
    let all: Vec<BuildResult> = source_plain(items);
    if CLONED.with(|c| c.get()) { all.into_iter().map(|r| r.map(|p| { let c = p.clone(); drop(p); c.clone() })).collect() } else { all }
}

fn source_plain(items: &[Src]) -> Vec<BuildResult> {
    items.iter().enumerate().map(|(i, x)| match *x {
        Src::Broken(k) => Err(broken(k)),
        Src::Pat(ref p) => {
            let tests = p.tests.as_ref().map(|t| t.iter().map(|t| TestMessage::new(t.message.clone(), t.values.clone(), t.tags.clone())).collect());
            Ok(Pattern::new(p.name.clone().unwrap_or_else(|| Some(format!("name {}", i))), real::uuid(p.uid.unwrap_or(i)), real::compiled(&p.tokens), tests, p.values.clone(), p.tags.clone()))
        }
    }).collect()
}

/// Everything a failing test message may legitimately be reported as.
#[derive(Clone, Debug, PartialEq)]
enum Fail {
    NoMatch { id: usize, message: String },
    Other { id: usize, got: usize, message: String },
    Tags { id: usize, expected: Vec<String>, got: Option<Vec<String>> },
    Key { id: usize, key: String },
    Value { id: usize, key: String, expected: String, got: String },
}

/// Failures per item, given what a matcher answers to which the patterns are added one by one; also that matcher.
fn reference(items: &[Src], kind: Kind) -> Result<(Vec<Vec<Fail>>, Box<dyn Matcher>), String> {
    guard(|| {
        let mut m = new_matcher(kind);
        let mut out = vec![];
        for (i, x) in items.iter().enumerate() {
            let mut fails = vec![];
            if let Src::Pat(ref p) = *x {
                let id = p.uid.unwrap_or(i);
                m.add_pattern(Pattern::new(p.name.clone().unwrap_or_else(|| Some(format!("name {}", i))), real::uuid(id), real::compiled(&p.tokens), None, p.values.clone(), p.tags.clone()));
                for t in p.tests.as_ref().map_or(&[][..], |t| &t[..]) {
                    if p.uid.is_some() && m.parse(&t.message).map_or(false, |r| r.pattern().uuid() == &real::uuid(id) && r.pattern().name() != Some(&format!("name {}", i)[..])) {
                        panic!("another pattern with the same uuid matches: not judged");
                    }
                    match ask(&*m, &t.message) {
                        None => fails.push(Fail::NoMatch { id, message: t.message.clone() }),
                        Some(ref a) if a.id != Some(id) => fails.push(Fail::Other { id, got: a.id.unwrap_or(usize::max_value()), message: t.message.clone() }),
                        Some(a) => {
                            if let Some(ref exp) = t.tags {
                                if exp.iter().any(|e| !p.tags.as_ref().map_or(false, |g| g.contains(e))) {
                                    fails.push(Fail::Tags { id, expected: exp.clone(), got: p.tags.clone() });
                                }
                            }
                            for (k, v) in &t.values {
                                let got = a.values.iter().find(|x| x.0 == *k).map(|x| &x.1).or(p.values.as_ref().and_then(|m| m.get(k)));
                                match got {
                                    None => fails.push(Fail::Key { id, key: k.clone() }),
                                    Some(g) => if g != v { fails.push(Fail::Value { id, key: k.clone(), expected: v.clone(), got: g.clone() }) },
                                }
                            }
                        }
                    }
                }
            }
            out.push(fails);
        }
        (out, m)
    })
}

fn same_uuid(text: &str, id: usize) -> bool {
    Uuid::parse_str(text).ok() == Some(real::uuid(id))
}

fn reports(e: &testmessage::Error, f: &Fail) -> bool {
    use testmessage::Error as E;
    match (e, f) {
        (&E::TestMessageDoesntMatch { ref pattern_uuid, ref message }, &Fail::NoMatch { id, message: ref m }) => same_uuid(pattern_uuid, id) && message == m,
        (&E::MatchedToOtherPattern { ref expected_uuid, ref got_uuid, ref message }, &Fail::Other { id, got, message: ref m }) => same_uuid(expected_uuid, id) && same_uuid(got_uuid, got) && message == m,
        (&E::UnexpectedTags { ref pattern_uuid, ref expected, ref got }, &Fail::Tags { id, expected: ref x, got: ref g }) => same_uuid(pattern_uuid, id) && expected.as_ref() == Some(x) && got == g,
        (&E::KeyNotFound { ref pattern_uuid, ref key }, &Fail::Key { id, key: ref k }) => same_uuid(pattern_uuid, id) && key == k,
        (&E::ValueNotMatch { ref pattern_uuid, ref key, ref expected_value, ref got_value }, &Fail::Value { id, key: ref k, expected: ref x, got: ref g }) =>
            same_uuid(pattern_uuid, id) && key == k && expected_value == x && got_value == g,
        _ => false,
    }
}

/// What the printed form of an error must contain.
fn mentions(f: &Fail) -> Vec<String> {
    let u = |id: usize| real::uuid(id).hyphenated().to_string();
    match *f {
        Fail::NoMatch { id, ref message } => vec![u(id), message.clone()],
        Fail::Other { id, got, ref message } => vec![u(id), u(got), message.clone()],
        Fail::Tags { id, ref expected, ref got } => Some(u(id)).into_iter().chain(expected.iter().cloned()).chain(got.iter().flat_map(|g| g.iter().cloned())).collect(),
        Fail::Key { id, ref key } => vec![u(id), key.clone()],
        Fail::Value { id, ref key, ref expected, ref got } => vec![u(id), key.clone(), expected.clone(), got.clone()],
    }
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    /// C15
    Verdict,
    /// C16
    Report,
    /// C17
    Lenient,
}

fn strict<F: MatcherFactory>(items: &[Src]) -> Result<Box<dyn Matcher>, BuildError> where F::Matcher: 'static {
    let mut it = source(items).into_iter();
    <F::Matcher as FromPatternSource>::from_source::<F>(&mut it).map(|m| Box::new(m) as Box<dyn Matcher>)
}

fn lenient<F: MatcherFactory>(items: &[Src]) -> Box<dyn Matcher> where F::Matcher: 'static {
    let mut it = source(items).into_iter();
    Box::new(<F::Matcher as FromPatternSource>::from_source_ignore_errors::<F>(&mut it))
}

fn ask_all(m: &dyn Matcher, msg: &str) -> Option<(Option<usize>, Vec<(String, String)>, Option<Map>, Option<Vec<String>>)> {
    m.parse(msg).map(|r| (real::uuid_id(r.pattern().uuid()), real::owned_values(r.values()), r.pattern().values().cloned(), r.pattern().tags().map(|t| t.to_vec())))
}

fn answers_differ(m: &dyn Matcher, plain: &dyn Matcher, msgs: &[String], l: &mut Local) -> Option<String> {
    for msg in msgs {
        l.transitions += 1;
        let exp = match guard(|| ask_all(plain, msg)) {
            Err(_) => continue,
            Ok(e) => e,
        };
        let got = match guard(|| ask_all(m, msg)) {
            Err(e) => return Some(format!("parsing {:?} panics: {}", msg, e)),
            Ok(g) => g,
        };
        if got != exp {
            return Some(format!("the message {:?} gives {:?}; with the patterns added one by one it gives {:?}", msg, got, exp));
        }
    }
    None
}

fn check_source(what: What, items: &[Src], msgs: &[String], l: &mut Local) -> Outcome {
    for k in KINDS.iter() {
        let (fails, plain) = match reference(items, *k) { Ok(x) => x, Err(_) => continue };
        let first = items.iter().zip(&fails).position(|(x, f)| match *x { Src::Broken(_) => true, _ => !f.is_empty() });
        let script = || {
            let mut t = format!("matcher: {:?}\nsource, in order:\n", k);
            for (i, x) in items.iter().enumerate() {
                t.push_str(&match *x {
                    Src::Broken(b) => format!("  {}: unreadable item ({})\n", i, broken(b)),
                    Src::Pat(ref p) => format!("  {}: {} values={:?} tags={:?} test messages={:?}\n", real::uuid(p.uid.unwrap_or(i)), model::source(&p.tokens), p.values, p.tags, p.tests),
                });
            }
            t
        };
        l.traces += 1;
        l.transitions += items.len() as u64;
        logcap::take_errors();
        if what == What::Lenient {
            let m = guard(|| match *k { Kind::Trie => lenient::<TrieMatcherFactory>(items), Kind::SuffixArray => lenient::<SuffixArrayMatcherFactory>(items) });
            let logged = logcap::take_errors();
            let m = match m {
                Err(e) => return violation(format!("lenient building panics: {}", e), script()),
                Ok(m) => m,
            };
            if let Some(d) = answers_differ(&*m, &*plain, msgs, l) {
                return violation(format!("the leniently built matcher: {}", d), script());
            }
            return_if(logged_wrong(items, &fails, &logged), &script)?;
            l.outcome(&(logged.len(), fails.iter().map(|f| f.len()).collect::<Vec<_>>()));
            continue;
        }
        let r = guard(|| match *k { Kind::Trie => strict::<TrieMatcherFactory>(items), Kind::SuffixArray => strict::<SuffixArrayMatcherFactory>(items) });
        let r = match r {
            Err(e) => return violation(format!("building panics: {}", e), script()),
            Ok(r) => r,
        };
        l.outcome(&(first, first.map(|i| format!("{:?}", fails[i].iter().map(std::mem::discriminant).collect::<Vec<_>>()))));
        match (what, r, first) {
            (What::Verdict, Ok(_), Some(i)) => return violation(format!("building succeeds although item {} fails: {:?}", i, fails[i]), script()),
            (What::Verdict, Err(e), None) => return violation(format!("building fails although everything passes: {}", e), script()),
            (What::Verdict, Ok(m), None) => if let Some(d) = answers_differ(&*m, &*plain, msgs, l) {
                return violation(format!("the built matcher: {}", d), script());
            },
            (What::Verdict, Err(_), Some(_)) => {}
            (What::Report, Err(e), Some(i)) => return_if(reported_wrong(&items[i], i, &fails[i], &e), &script)?,
            (What::Report, _, _) => {}
            (What::Lenient, _, _) => unreachable!(),
        }
    }
    l.states += 1;
    Ok(())
}

fn return_if(x: Option<String>, script: &dyn Fn() -> String) -> Outcome {
    match x { Some(d) => violation(d, script()), None => Ok(()) }
}

fn reported_wrong(item: &Src, i: usize, fails: &[Fail], e: &BuildError) -> Option<String> {
    let printed = match guard(|| e.to_string()) {
        Err(p) => return Some(format!("printing the error panics: {}", p)),
        Ok(p) => p,
    };
    match *item {
        Src::Broken(k) => {
            let exp = broken(k);
            if std::mem::discriminant(&exp) != std::mem::discriminant(e) || exp.to_string() != printed || format!("{:?}", exp) != format!("{:?}", e) {
                return Some(format!("the unreadable item {} ({:?}) is reported as {:?}", i, exp, e));
            }
        }
        Src::Pat(_) => match *e {
            BuildError::TestMessage(ref t) => match fails.iter().find(|f| reports(t, f)) {
                None => return Some(format!("the failure of item {} is reported as {:?}, what failed is one of {:?}", i, t, fails)),
                Some(f) => for m in mentions(f) {
                    let quoted: String = m.chars().flat_map(|c| c.escape_debug()).collect();
                    let says = |text: &str| text.contains(&m) || text.contains(&quoted);
                    if !says(&printed) || !says(&t.to_string()) {
                        return Some(format!("the printed error {:?} lacks {:?}", printed, m));
                    }
                },
            },
            ref e => return Some(format!("the failure of item {} is reported as {:?}", i, e)),
        },
    }
    None
}

fn logged_wrong(items: &[Src], fails: &[Vec<Fail>], logged: &[String]) -> Option<String> {
    let failing = |i: usize| match items[i] { Src::Broken(_) => true, _ => !fails[i].is_empty() };
    let about = |i: usize, text: &str| match items[i] {
        Src::Broken(k) => text.contains(&broken(k).to_string()),
        Src::Pat(_) => fails[i].iter().any(|f| mentions(f).iter().all(|m| text.contains(m) || text.contains(&m.chars().flat_map(|c| c.escape_debug()).collect::<String>()))),
    };
    for i in 0..items.len() {
        if failing(i) && !logged.iter().any(|t| about(i, t)) {
            return Some(format!("nothing is logged for the failing item {} ({:?}); logged: {:?}", i, fails[i], logged));
        }
    }
    for t in logged {
        if !(0..items.len()).any(|i| failing(i) && about(i, t)) {
            return Some(format!("an error is logged that belongs to no failing item: {:?}", t));
        }
    }
    // equal unreadable items are told apart by their number
    let broken_items = items.iter().filter(|x| matches!(**x, Src::Broken(_))).count();
    let failing_pats = (0..items.len()).filter(|&i| !fails[i].is_empty()).count();
    if logged.len() < broken_items + failing_pats {
        return Some(format!("{} errors are logged for {} failing items: {:?}", logged.len(), broken_items + failing_pats, logged));
    }
    None
}

fn tm(message: &str, values: &[(&str, &str)], tags: Option<&[&str]>) -> TestMsg {
    TestMsg { message: message.to_owned(), values: map(values), tags: tags.map(|t| list(t)) }
}

fn pat(tokens: Tokens, tests: Option<Vec<TestMsg>>) -> Pat {
    Pat { uid: None, name: None, tokens: link_greedy(tokens), values: None, tags: None, tests }
}

fn token_pool() -> Vec<Tokens> {
    vec![vec![lit("a")], vec![lit("a"), int("n")], vec![int("n")], vec![set("ab", "s")], vec![lit("a"), greedy("g")], vec![greedy("g")], vec![lit("ab")], vec![set("ab", "s"), int("n")],
         vec![set("a", "n"), int("n")], vec![]].into_iter().map(link_greedy).collect()
}

const TEXTS: [&str; 7] = ["a", "a1", "1", "ab", "b", "", "ab1"];

fn asked() -> Vec<String> {
    ["", "a", "b", "1", "a1", "ab", "ba", "ab1", "b1", "zz", "a12", "é"].iter().map(|s| s.to_string()).collect()
}

/// one pattern, one test message, every combination of contents and expectations
fn single(what: What) -> Family {
    let toks = token_pool();
    let expv: Vec<Map> = vec![map(&[]), map(&[("n", "1")]), map(&[("n", "2")]), map(&[("n", "a")]), map(&[("k", "v")]), map(&[("k", "w")]), map(&[("k", "")]), map(&[("k", "v"), ("n", "1")]), map(&[("k", "w"), ("n", "1")]), map(&[("k", "v"), ("n", "9")]), map(&[("n", "9")]),
                              map(&[("g", "1")]), map(&[("g", "")]), map(&[("s", "ab")]), map(&[("z", "")]), map(&[("s", "a"), ("n", "1")]), map(&[("K", "v")]), map(&[("s", "b"), ("z", "z"), ("k", "v")])];
    let addl: Vec<Option<Map>> = vec![None, Some(map(&[])), Some(map(&[("k", "v")])), Some(map(&[("k", "v"), ("n", "9")])), Some(map(&[("n", "1"), ("k", "")]))];
    let tags: Vec<Option<Vec<String>>> = vec![None, Some(vec![]), Some(list(&["t"])), Some(list(&["t", "u"])), Some(list(&["u", "t", "t"]))];
    let expt: Vec<Option<Vec<String>>> = vec![None, Some(vec![]), Some(list(&["t"])), Some(list(&["u"])), Some(list(&["t", "u"])), Some(list(&["u", "t"])), Some(list(&["v"])), Some(list(&["t", "v"])), Some(list(&["t", "t"])), Some(list(&["T"])), Some(list(&[""]))];
    let n = (toks.len() * TEXTS.len() * expv.len() * addl.len() * tags.len() * expt.len()) as u64;
    let bound = format!("one pattern with one test message: {} token sequences x {} messages x {} expected value maps x {} additional value maps x {} tag lists x {} expected tag lists", toks.len(), TEXTS.len(), expv.len(), addl.len(), tags.len(), expt.len());
    let msgs = asked();
    chunked("single", bound, n, 256, move |i, l| {
        let mut i = i as usize;
        let mut pick = |n: usize| { let k = i % n; i /= n; k };
        let p = Pat {
            uid: None,
            name: None,
            tokens: toks[pick(toks.len())].clone(),
            tests: Some(vec![TestMsg { message: TEXTS[pick(TEXTS.len())].to_owned(), values: expv[pick(expv.len())].clone(), tags: expt[pick(expt.len())].clone() }]),
            values: addl[pick(addl.len())].clone(),
            tags: tags[pick(tags.len())].clone(),
        };
        check_source(what, &[Src::Pat(p)], &msgs, l)
    })
}

/// one pattern with several test messages: any of them may fail
fn several(what: What, k: usize) -> Family {
    let pool: Vec<TestMsg> = vec![tm("a1", &[], None), tm("a1", &[("n", "1")], Some(&["t"])), tm("a22", &[("n", "22"), ("k", "v")], None), tm("x", &[], None), tm("a1", &[("n", "2")], None), tm("a1", &[("m", "1")], None), tm("a3", &[("k", "w")], Some(&["u"])), tm("a4", &[], Some(&["u"])), tm("", &[], None),
                                  tm("a5", &[("n", "5"), ("k", "x"), ("m", "1")], Some(&["t", "u"]))];
    let seqs = all_sequences(pool.len(), k);
    let bound = format!("one pattern with every sequence of up to {} test messages out of {}", k, pool.len());
    let msgs = asked();
    chunked("several", bound, seqs.len() as u64, 64, move |i, l| {
        let tests = seqs[i as usize].iter().map(|&k| pool[k].clone()).collect();
        let p = Pat { uid: None, name: None, tokens: vec![lit("a"), int("n")], tests: Some(tests), values: Some(map(&[("k", "v")])), tags: Some(list(&["t"])) };
        check_source(what, &[Src::Pat(p)], &msgs, l)
    })
}

/// texts that a normalisation would take for equal: every pair as found and expected value, key, tag and message
fn near(what: What) -> Family {
    let mut texts: Vec<String> = ["1", "01", "1 ", " 1", "1\n", "\t1", "1.0", "+1", "-1", "1e0", "a", "A", "b", "ab", "á", "a\u{301}", "ａ", "", " ", "  ", "\u{0}", "true", "True", "null", "~", "a,b", "a;b", "ß", "ss", "SS", "\"a\"", "'a'", "\\a", "a\\", "%{", "\\%\\{", "a.b", "a_b", "a-b",
                                  "é", "è", "€", "\u{a0}", "\u{200b}", "\u{feff}a", "a\r", "a\u{0}", "n", "g"].iter().map(|x| x.to_string()).collect();
    texts.push("x".repeat(64));
    texts.push("x".repeat(65));
    texts.push(format!("{}y", "x".repeat(64)));
    texts.push("x".repeat(300));
    let n = texts.len() as u64;
    let bound = format!("all ordered pairs of {} nearly equal texts as captured and expected value, additional and expected value, additional and expected key, tag and expected tag, pattern text and test message, in lists and alone", n);
    Family::new("near", bound, n, move |item, l| {
        let x = &texts[item as usize];
        for y in &texts {
            let rest = Tokens::from(vec![lit("p:"), greedy("g")]);
            let p = |values: Option<Map>, tags: Option<Vec<String>>, t: TestMsg| Src::Pat(Pat { uid: None, name: None, tokens: rest.clone(), values, tags, tests: Some(vec![t]) });
            let one = |k: &str, v: &str| { let mut m = Map::new(); m.insert(k.to_owned(), v.to_owned()); m };
            let pmsg = format!("p:{}", x);
            let msgs = vec![pmsg.clone(), format!("p:{}", y), x.clone(), y.clone()];
            let mut all: Vec<Src> = vec![
                p(None, None, TestMsg { message: pmsg.clone(), values: one("g", y), tags: None }),
                p(Some(one("k", x)), None, TestMsg { message: pmsg.clone(), values: one("k", y), tags: None }),
                p(Some(one(x, "v")), None, TestMsg { message: pmsg.clone(), values: one(y, "v"), tags: None }),
                p(Some(one("g", x)), None, TestMsg { message: format!("p:{}", y), values: one("g", x), tags: None }),
                p(Some(one(x, "v")), None, TestMsg { message: pmsg.clone(), values: { let mut m = one(x, "v"); m.insert(y.clone(), "v".to_owned()); m }, tags: None }),
                p(None, Some(vec![x.clone()]), TestMsg { message: pmsg.clone(), values: Map::new(), tags: Some(vec![y.clone()]) }),
                p(None, Some(vec!["t".to_owned(), x.clone(), "u".to_owned()]), TestMsg { message: pmsg.clone(), values: Map::new(), tags: Some(vec!["u".to_owned(), y.clone()]) }),
                p(None, Some(vec![x.clone(), y.clone()]), TestMsg { message: pmsg.clone(), values: Map::new(), tags: Some(vec![y.clone(), x.clone(), y.clone()]) }),
            ];
            if !x.is_empty() {
                all.push(Src::Pat(Pat { uid: None, name: None, tokens: vec![lit(x)], values: None, tags: None, tests: Some(vec![TestMsg { message: y.clone(), values: Map::new(), tags: None }]) }));
            }
            for it in all {
                check_source(what, &[it], &msgs, l)?;
            }
        }
        Ok(())
    })
}

/// long and many: every size of a range for messages, keys, values, tags, and their numbers
fn sizes(what: What, max: usize) -> Family {
    let ns: Vec<usize> = Some(0).into_iter().chain(ladder(max, 5000)).collect();
    let many = 1100;
    let bound = format!("{} sizes up to 5000 of messages, keys, values and tags (ASCII, multi-byte, with and without a difference at the end), up to {} keys, tags and test messages", ns.len(), many);
    Family::new("sizes", bound, ns.len() as u64, move |item, l| {
        let n = ns[item as usize];
        let rest = Tokens::from(vec![lit("p:"), greedy("g")]);
        let one = |k: &str, v: &str| { let mut m = Map::new(); m.insert(k.to_owned(), v.to_owned()); m };
        let src = |values: Option<Map>, tags: Option<Vec<String>>, t: TestMsg| vec![Src::Pat(Pat { uid: None, name: None, tokens: rest.clone(), values, tags, tests: Some(vec![t]) })];
        for unit in ["7", "é", "€", "😀"] {
            for pad in ["", "x", "xy"] {
                let x = format!("{}{}", pad, unit.repeat(n));
                let y = format!("{}1", x);
                let long = format!("p:{}", x);
                let mut all = vec![];
                for e in [&x, &y] {
                    all.push(src(None, None, TestMsg { message: long.clone(), values: one("g", e), tags: None }));
                    all.push(src(Some(one("k", &x)), None, TestMsg { message: "p:".to_owned(), values: one("k", e), tags: None }));
                    all.push(src(Some(one(&x, "v")), None, TestMsg { message: "p:".to_owned(), values: one(e, "v"), tags: None }));
                    all.push(src(Some(one(&x, "v")), None, TestMsg { message: "p:".to_owned(), values: one(&x, e), tags: None }));
                    all.push(src(None, Some(vec!["t".to_owned(), x.clone()]), TestMsg { message: long.clone(), values: Map::new(), tags: Some(vec![e.to_string()]) }));
                }
                all.push(src(None, None, TestMsg { message: format!("q{}", long), values: Map::new(), tags: None }));
                // matched by an earlier, more specific pattern
                if !x.is_empty() {
                    let mut two = vec![Src::Pat(pat(vec![lit(&long)], None))];
                    two.extend(src(None, None, TestMsg { message: long.clone(), values: Map::new(), tags: None }));
                    all.push(two);
                }
                for it in all {
                    check_source(what, &it, &[long.clone(), "p:".to_owned()], l)?;
                }
            }
        }
        if n <= many && n > 0 {
            let keys: Map = (0..n).map(|i| (format!("k{:04}", i), format!("v{}", i))).collect();
            let tags: Vec<String> = (0..n).map(|i| format!("t{}", i)).collect();
            for at in [0, n / 2, n - 1] {
                let mut wrong = keys.clone();
                wrong.insert(format!("k{:04}", at), "w".to_owned());
                let mut extra = keys.clone();
                extra.insert(format!("k{:04}x", at), "w".to_owned());
                let mut wt = tags.clone();
                wt[at] = "none".to_owned();
                let rev: Vec<String> = tags.iter().rev().cloned().collect();
                for (v, t) in [(keys.clone(), tags.clone()), (wrong, tags.clone()), (extra, rev.clone()), (keys.clone(), wt), (keys.clone(), rev), (Map::new(), vec![])] {
                    check_source(what, &src(Some(keys.clone()), Some(tags.clone()), TestMsg { message: "p:".to_owned(), values: v, tags: Some(t) }), &["p:".to_owned()], l)?;
                }
                // many test messages, one of them wrong
                for how in 0..3 {
                    let tests: Vec<TestMsg> = (0..n).map(|i| TestMsg { message: format!("{}:{}", if i == at && how == 1 { "q" } else { "p" }, i), values: one("g", &format!("{}{}", i, if i == at && how == 2 { "!" } else { "" })), tags: None }).collect();
                    check_source(what, &[Src::Pat(Pat { uid: None, name: None, tokens: rest.clone(), values: None, tags: None, tests: Some(tests) })], &["p:".to_owned()], l)?;
                }
            }
        }
        Ok(())
    })
}

/// two patterns all of whose texts are drawn from two words, so that every two of them may coincide
fn coincidences(what: What, which: &str, words: [String; 2], quick: bool) -> Family {
    let [x, y] = words;
    let xy = format!("{}{}", x, y);
    let names: Vec<Option<String>> = if quick { vec![None, Some(x.clone()), Some(xy.clone())] } else { vec![None, Some(x.clone()), Some(y.clone()), Some(xy.clone())] };
    let chars: String = xy.clone();
    let toks: Vec<Tokens> = vec![vec![lit(&x)], vec![int(&x)], vec![greedy(&x)], vec![set(&chars, &y)], vec![lit(&x), greedy(&y)]].into_iter().map(link_greedy).collect();
    let texts = vec![x.clone(), y.clone(), xy.clone()];
    let one = |k: &str, v: &str| { let mut m = Map::new(); m.insert(k.to_owned(), v.to_owned()); m };
    let exps = vec![Map::new(), one(&x, &x), one(&x, &y), one(&y, &x), one(&y, &y)];
    let adds = vec![None, Some(one(&x, &x)), Some(one(&x, &y))];
    let tags = vec![None, Some(vec![x.clone()]), Some(vec![y.clone(), x.clone()])];
    let expt = vec![None, Some(vec![x.clone()])];
    let firsts = names.len() * toks.len() * adds.len() * tags.len();
    let seconds = names.len() * toks.len() * texts.len() * exps.len() * expt.len() * adds.len() * tags.len();
    let bound = format!("all {} pairs of a pattern without and one with a test message whose names, literals, parser names, values, tags, test message and expectations are drawn from the words {:?} and {:?} and their concatenation", firsts * seconds, x, y);
    Family::new(&format!("coincidences-{}", which), bound, seconds as u64, move |item, l| {
        let mut i = item as usize;
        let mut pick = |n: usize| { let k = i % n; i /= n; k };
        let second = Pat {
            uid: None,
            name: Some(names[pick(names.len())].clone()),
            tokens: toks[pick(toks.len())].clone(),
            tests: Some(vec![TestMsg { message: texts[pick(texts.len())].clone(), values: exps[pick(exps.len())].clone(), tags: expt[pick(expt.len())].clone() }]),
            values: adds[pick(adds.len())].clone(),
            tags: tags[pick(tags.len())].clone(),
        };
        for f in 0..firsts {
            let mut i = f;
            let mut pick = |n: usize| { let k = i % n; i /= n; k };
            let first = Pat { uid: None, name: Some(names[pick(names.len())].clone()), tokens: toks[pick(toks.len())].clone(), tests: None, values: adds[pick(adds.len())].clone(), tags: tags[pick(tags.len())].clone() };
            check_source(what, &[Src::Pat(first), Src::Pat(second.clone())], &texts, l)?;
        }
        Ok(())
    })
}

/// patterns of one source that share an uuid
fn shared_uuids(what: What, k: usize) -> Family {
    let mut pool: Vec<Pat> = vec![];
    for uid in [0, 1] {
        for t in [vec![lit("a")], vec![lit("a"), int("n")], vec![int("n")], vec![greedy("g")], vec![lit("b")]] {
            for m in [None, Some("a"), Some("a1"), Some("1")] {
                let mut p = pat(t.clone(), m.map(|m| vec![tm(m, &[], None)]));
                p.uid = Some(uid);
                p.values = Some(map(&[("k", if uid == 0 { "v" } else { "w" })]));
                pool.push(p);
            }
        }
    }
    let seqs = all_sequences(pool.len(), k);
    let bound = format!("all {} sequences of up to {} patterns out of {} that share two uuids (sequences in which another pattern with the same uuid takes a test message are not judged)", seqs.len(), k, pool.len());
    let msgs = asked();
    chunked("shared-uuids", bound, seqs.len() as u64, 64, move |i, l| {
        let items: Vec<Src> = seqs[i as usize].iter().map(|&k| Src::Pat(pool[k].clone())).collect();
        check_source(what, &items, &msgs, l)
    })
}

/// Patterns that have a name, tags or values in common, passing and failing.
fn shared_labels(what: What, k: usize) -> Family {
    let shares = ["nothing", "the name", "the empty name", "no name", "the tags", "the values", "everything but uuid and tokens"];
    let fates = ["passes", "expects another value", "is not matched", "has no test message"];
    let n = shares.len() * fates.len() + 1;
    let seqs = all_sequences(n, k);
    let bound = format!("all {} sequences of up to {} items out of {}: patterns that have a name (also the empty one or none), tags, values or all of these in common x fates of their test message, and an unreadable item", seqs.len(), k, n);
    let msgs: Vec<String> = ["a1", "b1", "c1", "d1", "a", ""].iter().map(|x| x.to_string()).collect();
    chunked("shared-labels", bound, seqs.len() as u64, 64, move |i, l| {
        let items: Vec<Src> = seqs[i as usize].iter().enumerate().map(|(pos, &c)| {
            if c == n - 1 {
                return Src::Broken(0);
            }
            let (share, fate) = (c / fates.len(), c % fates.len());
            let letter = ["a", "b", "c", "d", "e"][pos];
            let msg = format!("{}1", letter);
            let tests = match fate {
                0 => Some(vec![tm(&msg, &[("n", "1")], None)]),
                1 => Some(vec![tm(&msg, &[("n", "2")], None)]),
                2 => Some(vec![tm("?", &[], None)]),
                _ => None,
            };
            let mut p = pat(vec![lit(letter), int("n")], tests);
            p.name = match share { 1 | 6 => Some(Some("same".to_owned())), 2 => Some(Some(String::new())), 3 => Some(None), _ => None };
            p.tags = if share == 4 || share == 6 { Some(list(&["t", "u"])) } else { Some(vec![format!("t{}", pos)]) };
            p.values = if share == 5 || share == 6 { Some(map(&[("k", "v")])) } else { None };
            Src::Pat(p)
        }).collect();
        check_source(what, &items, &msgs, l)
    })
}

/// Patterns whose uuids a program could treat specially (nil, all ones, of every version), passing and failing.
fn special_uuids(what: What) -> Family {
    let n = real::SPECIALS.len();
    let fates = 6;
    let make = |u: usize, other: usize, fate: usize| {
        let word = format!("w{}:", u);
        let tests = match fate {
            0 => vec![tm(&format!("{}5", word), &[("n", "5")], Some(&["t"]))],
            1 => vec![tm("nothing", &[], None)],
            2 => vec![tm(&format!("w{}:5", other), &[("n", "5")], None)],
            3 => vec![tm(&format!("{}5", word), &[("n", "6")], None)],
            4 => vec![tm(&format!("{}5", word), &[("m", "5")], None)],
            _ => vec![tm(&format!("{}5", word), &[], Some(&["u"]))],
        };
        Pat { uid: Some(real::SPECIAL + u), name: None, tokens: vec![lit(&word), int("n")], values: None, tags: Some(list(&["t"])), tests: Some(tests) }
    };
    let bound = format!("all ordered pairs of {} special uuids (nil, all ones, one bit, every version) x {} fates of the first x {} fates of the second pattern's test message", n, fates, fates);
    chunked("special-uuids", bound, (n * n * fates * fates) as u64, 32, move |i, l| {
        let mut i = i as usize;
        let mut pick = |n: usize| { let k = i % n; i /= n; k };
        let (a, b, x, y) = (pick(n), pick(n), pick(fates), pick(fates));
        if a == b {
            return Ok(());
        }
        let msgs: Vec<String> = vec![format!("w{}:5", a), format!("w{}:5", b), "nothing".to_owned()];
        check_source(what, &[Src::Pat(make(a, b, x)), Src::Pat(make(b, a, y))], &msgs, l)
    })
}

fn source_pool(small: bool) -> Vec<Src> {
    let mut v = vec![];
    for t in token_pool() {
        v.push(Src::Pat(pat(t.clone(), None)));
        for m in TEXTS.iter().take(if small { 4 } else { 7 }) {
            v.push(Src::Pat(pat(t.clone(), Some(vec![tm(m, &[], None)]))));
        }
    }
    v
}

/// sequences of patterns: earlier ones may take the test messages of later ones
fn histories(what: What, k: usize, small: bool) -> Family {
    let pool = source_pool(small);
    let n = pool.len() as u64;
    let total: u64 = (0..k as u32 + 1).map(|x| n.pow(x)).sum();
    let bound = format!("all {} sequences of up to {} patterns out of {} ({} token sequences, each without and with one of {} test messages), {} messages asked of the result", total, k, n, token_pool().len(), if small { 4 } else { 7 }, asked().len());
    let msgs = asked();
    chunked(if small { "histories-deep" } else { "histories" }, bound, total, 256, move |i, l| {
        let mut i = i;
        let mut len = 0;
        while i >= n.pow(len) {
            i -= n.pow(len);
            len += 1;
        }
        let mut items = vec![];
        for _ in 0..len {
            items.push(pool[(i % n) as usize].clone());
            i /= n;
        }
        check_source(what, &items, &msgs, l)
    })
}

/// sequences that mix patterns with values, tags and expectations, and unreadable items
fn mixed(what: What, k: usize) -> Family {
    let rich = |tokens: Tokens, t: Vec<TestMsg>| Src::Pat(Pat { uid: None, name: None, tokens: link_greedy(tokens), values: Some(map(&[("k", "v"), ("n", "9")])), tags: Some(list(&["t", "u"])), tests: Some(t) });
    let pool: Vec<Src> = vec![
        Src::Broken(0), Src::Broken(1), Src::Broken(2), Src::Broken(3),
        Src::Pat(pat(vec![lit("a")], None)),
        Src::Pat(pat(vec![greedy("g")], Some(vec![]))),
        rich(vec![lit("a"), int("n")], vec![tm("a1", &[("n", "1"), ("k", "v")], Some(&["u"]))]),
        rich(vec![lit("a"), int("n")], vec![tm("a1", &[("n", "1")], None), tm("a2", &[("n", "9")], None)]),
        rich(vec![int("n")], vec![tm("1", &[], None), tm("2", &[], Some(&["x"])), tm("3", &[], None)]),
        rich(vec![set("ab", "s")], vec![tm("b", &[("s", "b")], Some(&["t"])), tm("a", &[("s", "a")], None)]),
        rich(vec![greedy("g")], vec![tm("zz", &[("q", "1")], None)]),
        rich(vec![lit("ab")], vec![tm("nope", &[], None)]),
        Src::Pat(pat(vec![], None)),
    ];
    let seqs = all_sequences(pool.len(), k);
    let bound = format!("all {} sequences of up to {} items out of {} (four kinds of unreadable items, patterns that pass, patterns that fail in every way)", seqs.len(), k, pool.len());
    let msgs = asked();
    chunked("mixed", bound, seqs.len() as u64, 32, move |i, l| {
        let items: Vec<Src> = seqs[i as usize].iter().enumerate().map(|(at, &k)| match pool[k] {
            Src::Broken(b) => Src::Broken(b + 4 * at),
            ref x => x.clone(),
        }).collect();
        l.sample(|| format!("{:?}", items));
        check_source(what, &items, &msgs, l)
    })
}

/// unreadable items with empty and other unusual texts
fn odd_texts(what: What, k: usize) -> Family {
    let mut pool: Vec<Src> = (0..2 * ODD_TEXTS.len()).map(|i| Src::Broken(ODD + i)).collect();
    pool.push(Src::Pat(pat(vec![lit("a"), int("n")], Some(vec![tm("a1", &[("n", "1")], None)]))));
    pool.push(Src::Pat(pat(vec![lit("b")], Some(vec![tm("c", &[], None)]))));
    let seqs = all_sequences(pool.len(), k);
    let bound = format!("all {} sequences of up to {} items out of {} unreadable ones with empty or unusual texts, a pattern that passes and one that fails", seqs.len(), k, 2 * ODD_TEXTS.len());
    let msgs = asked();
    chunked("odd-texts", bound, seqs.len() as u64, 32, move |i, l| {
        let items: Vec<Src> = seqs[i as usize].iter().map(|&k| pool[k].clone()).collect();
        check_source(what, &items, &msgs, l)
    })
}

/// long sources with one failing item at every position
fn long(what: What, max: usize) -> Family {
    let bound = format!("sources of 1 to {} patterns with the failing test message, or the unreadable item, at every position", max);
    Family::new("long", bound, max as u64, move |n, l| {
        let n = n as usize + 1;
        let good = |i: usize| pat(vec![lit(&format!("w{}:", i)), int("n")], Some(vec![tm(&format!("w{}:5", i), &[("n", "5")], None), tm(&format!("w{}:77", i), &[("n", "77")], None)]));
        let msgs: Vec<String> = (0..n + 1).map(|i| format!("w{}:1", i)).collect();
        for at in 0..n + 1 {
            for how in 0..3 {
                let items: Vec<Src> = (0..n).map(|i| {
                    let mut p = good(i);
                    if i == at {
                        match how {
                            0 => return Src::Broken(4 * i),
                            1 => p.tests.as_mut().unwrap()[0].message.push('x'),
                            _ => { p.tests.as_mut().unwrap()[1].values.insert("n".to_owned(), "78".to_owned()); }
                        }
                    }
                    Src::Pat(p)
                }).collect();
                check_source(what, &items, &msgs, l)?;
            }
        }
        Ok(())
    })
}

/// nothing but failures, many of them
fn many_failures(what: What, sizes: Vec<usize>) -> Family {
    let bound = format!("sources of {} sizes up to {} in which every item, every second or all but the last fail: unreadable, no match, wrong value, wrong tags, in turn", sizes.len(), sizes[sizes.len() - 1]);
    Family::new("many-failures", bound, sizes.len() as u64, move |item, l| {
        let n = sizes[item as usize];
        for keep in 0..3 {
            for kind in 0..5 {
                let items: Vec<Src> = (0..n).map(|i| {
                    let good = match keep { 0 => false, 1 => i % 2 == 1, _ => i + 1 == n };
                    let (m, v, t): (String, &str, Option<&[&str]>) = match (good, if kind == 4 { i % 4 } else { kind }) {
                        (true, _) => (format!("w{}:5", i), "5", None),
                        (false, 0) => return Src::Broken(4 * i),
                        (false, 1) => (format!("x{}:5", i), "5", None),
                        (false, 2) => (format!("w{}:5", i), "6", None),
                        _ => (format!("w{}:5", i), "5", Some(&["none"])),
                    };
                    Src::Pat(pat(vec![lit(&format!("w{}:", i)), int("n")], Some(vec![tm(&m, &[("n", v)], t)])))
                }).collect();
                check_source(what, &items, &[format!("w{}:1", n - 1), "w0:1".to_owned()], l)?;
            }
        }
        Ok(())
    })
}

/// the same through files: the last entry is added first
fn through_files(what: What, k: usize) -> Family {
    let test = |m: &str, vals: &[(&str, &str)], tags: Option<&[&str]>| tm(m, vals, tags);
    let pool: Vec<Pat> = vec![
        pat(vec![lit("a")], None),
        pat(vec![lit("a"), int("n")], Some(vec![test("a1", &[("n", "1")], None)])),
        pat(vec![lit("a"), int("n")], Some(vec![test("a1", &[], None), test("a2", &[("n", "1")], None)])),
        pat(vec![greedy("g")], Some(vec![test("a", &[("g", "a")], None)])),
        pat(vec![set("ab", "s")], Some(vec![test("b", &[], Some(&[]))])),
        pat(vec![set("ab", "t")], Some(vec![test("b", &[], None)])),
        Pat { uid: None, name: None, tokens: vec![int("n")], values: Some(map(&[("k", "v")])), tags: Some(list(&["t"])), tests: Some(vec![test("1", &[("k", "v"), ("n", "1")], Some(&["t"]))]) },
        Pat { uid: None, name: None, tokens: vec![int("n")], values: Some(map(&[("k", "v")])), tags: Some(list(&["t"])), tests: Some(vec![test("1", &[], Some(&["u"]))]) },
    ];
    let seqs = all_sequences(pool.len(), k);
    let bound = format!("all {} pattern files of up to {} entries out of {}, as JSON and YAML, in both matchers", seqs.len(), k, pool.len());
    let msgs = asked();
    chunked("files", bound, seqs.len() as u64, 16, move |i, l| {
        let entries: Vec<&Pat> = seqs[i as usize].iter().map(|&k| &pool[k]).collect();
        check_entries(what, &entries, &msgs, l)
    })
}

/// Pattern files with these entries, as JSON and YAML, in both matchers.
fn check_entries(what: What, entries: &[&Pat], msgs: &[String], l: &mut Local) -> Outcome {
    // source order is from the last entry to the first
    let items: Vec<Src> = entries.iter().rev().map(|p| Src::Pat((*p).clone())).collect();
    let n = entries.len();
    let v = obj(&[("patterns", V::Arr(entries.iter().enumerate().map(|(e, p)| {
        let mut o = vec![("uuid", s(&real::uuid(n - 1 - e).hyphenated().to_string())), ("pattern", s(&model::source(&p.tokens)))];
        if let Some(ref m) = p.values {
            o.push(("values", V::Obj(m.iter().map(|x| (x.0.clone(), s(x.1))).collect())));
        }
        if let Some(ref t) = p.tags {
            o.push(("tags", V::Arr(t.iter().map(|x| s(x)).collect())));
        }
        if let Some(ref t) = p.tests {
            o.push(("test_messages", V::Arr(t.iter().map(|t| {
                let mut o = vec![("message", s(&t.message)), ("values", V::Obj(t.values.iter().map(|x| (x.0.clone(), s(x.1))).collect()))];
                if let Some(ref t) = t.tags {
                    o.push(("tags", V::Arr(t.iter().map(|x| s(x)).collect())));
                }
                obj(&o)
            }).collect())));
        }
        obj(&o)
    }).collect()))]);
    for st in [Style::JsonPretty, Style::YamlBlock].iter() {
        let text = st.text(&v);
        let path = write(l, st.ext(), &text);
        for k in KINDS.iter() {
            let (fails, plain) = match reference(&items, *k) { Ok(x) => x, Err(_) => continue };
            let first = fails.iter().position(|f| !f.is_empty());
            let script = || format!("matcher: {:?}\n{}({}) on\n{}\n", k, if what == What::Lenient { "from_file_ignore_errors" } else { "from_file" }, st.ext(), text);
            l.traces += 1;
            l.transitions += 1;
            logcap::take_errors();
            let r = match guard(|| from_file(*k, &path, what == What::Lenient)) {
                Err(e) => return violation(format!("loading panics: {}", e), script()),
                Ok(r) => r,
            };
            let logged = logcap::take_errors();
            l.outcome(&(first, logged.len()));
            match (what, r) {
                (What::Lenient, Err(e)) => return violation(format!("lenient loading of a readable file fails: {}", e), script()),
                (What::Lenient, Ok(m)) => {
                    if let Some(d) = answers_differ(&*m, &*plain, msgs, l) {
                        return violation(format!("the leniently loaded matcher: {}", d), script());
                    }
                    return_if(logged_wrong(&items, &fails, &logged), &script)?;
                }
                (What::Verdict, Ok(m)) => match first {
                    Some(i) => return violation(format!("loading succeeds although item {} fails: {:?}", i, fails[i]), script()),
                    None => if let Some(d) = answers_differ(&*m, &*plain, msgs, l) {
                        return violation(format!("the loaded matcher: {}", d), script());
                    },
                },
                (What::Verdict, Err(e)) => if first.is_none() {
                    return violation(format!("loading fails although everything passes: {}", e), script());
                },
                (What::Report, Err(e)) => if let Some(i) = first {
                    return_if(reported_wrong(&items[i], i, &fails[i], &e), &script)?;
                },
                (What::Report, Ok(_)) => {}
            }
        }
    }
    l.states += 1;
    Ok(())
}

/// files of many entries: the order of the entries decides
fn large_files(what: What, ns: Vec<usize>) -> Family {
    let bound = format!("files of {} sizes up to {} in which all entries match the same messages (only the one that is added first can pass), in which two of them fail, in which the last or none does", ns.len(), ns[ns.len() - 1]);
    Family::new("large-files", bound, ns.len() as u64, move |item, l| {
        let n = ns[item as usize];
        let overlap = |i: usize, tests: bool| pat(vec![lit("p:"), int(&format!("n{}", i))], if tests { Some(vec![tm("p:5", &[(&format!("n{}", i)[..], "5")], None)]) } else { None });
        let apart = |i: usize, bad: bool| pat(vec![lit(&format!("w{}:", i)), int("n")], Some(vec![tm(&format!("w{}:5", i), &[("n", if bad { "6" } else { "5" })], None)]));
        let msgs = vec!["p:1".to_owned(), "w0:1".to_owned(), format!("w{}:2", n - 1), format!("w{}:3", n)];
        let mut files: Vec<Vec<Pat>> = vec![];
        for tested in [vec![], vec![n - 1], vec![0], (0..n).collect(), vec![n / 2, n - 1]] {
            files.push((0..n).map(|i| overlap(i, tested.contains(&i))).collect());
        }
        for failing in [vec![], vec![0, n - 1], vec![n / 3, n / 2], vec![0]] {
            files.push((0..n).map(|i| apart(i, failing.contains(&i))).collect());
        }
        for f in &files {
            check_entries(what, &f.iter().collect::<Vec<_>>(), &msgs, l)?;
        }
        Ok(())
    })
}

/// A source that counts what is taken from it and goes on after its end.
struct Counted {
    items: std::vec::IntoIter<BuildResult>,
    after: std::vec::IntoIter<BuildResult>,
    taken: std::rc::Rc<std::cell::Cell<usize>>,
    ended: bool,
}

impl Iterator for Counted {
    type Item = BuildResult;
    fn next(&mut self) -> Option<BuildResult> {
        if self.ended {
            self.taken.set(self.taken.get() + 1);
            return self.after.next();
        }
        match self.items.next() {
            Some(x) => { self.taken.set(self.taken.get() + 1); Some(x) }
            None => { self.ended = true; None }
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Event {
    Add(usize),
    Parse(String),
}
thread_local!(static EVENTS: std::cell::RefCell<Vec<Event>> = std::cell::RefCell::new(vec![]));

/// A matcher of the user's own: a trie that keeps a diary.
#[derive(Debug)]
struct Own(Box<dyn Matcher>);
struct OwnFactory;

impl MatcherFactory for OwnFactory {
    type Matcher = Own;
    fn new_matcher() -> Own {
        Own(new_matcher(Kind::Trie))
    }
}

impl Matcher for Own {
    fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<actiondb::matcher::result::MatchResult<'a, 'b>> {
        EVENTS.with(|e| e.borrow_mut().push(Event::Parse(text.to_owned())));
        self.0.parse(text)
    }
    fn add_pattern(&mut self, p: Pattern) {
        EVENTS.with(|e| e.borrow_mut().push(Event::Add(real::uuid_id(p.uuid()).unwrap_or(usize::max_value()))));
        self.0.add_pattern(p)
    }
    fn boxed_clone(&self) -> Box<dyn Matcher> {
        Box::new(Own(self.0.boxed_clone()))
    }
}

/// what is taken from the source, and what a matcher of the user's own is asked
fn taken(what: What, k: usize) -> Family {
    let seqs = all_sequences(4, k);
    let bound = format!("all {} sources of up to {} items (passing, failing, without test messages, unreadable), counting what is taken from the source and what a matcher of the user's own is asked", seqs.len(), k);
    chunked("taken", bound, seqs.len() as u64, 16, move |i, l| {
        let seq = &seqs[i as usize];
        let item = |i: usize, k: usize| match k {
            0 => Src::Pat(pat(vec![lit(&format!("w{}:", i)), int("n")], Some(vec![tm(&format!("w{}:5", i), &[("n", "5")], None), tm(&format!("w{}:6", i), &[], None)]))),
            1 => Src::Pat(pat(vec![lit(&format!("w{}:", i)), int("n")], Some(vec![tm(&format!("w{}:5", i), &[("n", "6")], None)]))),
            2 => Src::Pat(pat(vec![lit(&format!("w{}:", i)), int("n")], None)),
            _ => Src::Broken(4 * i),
        };
        let items: Vec<Src> = seq.iter().enumerate().map(|(i, &k)| item(i, k)).collect();
        let n = items.len();
        let first = seq.iter().position(|&k| k == 1 || k == 3);
        let script = || format!("source: {:?} (0: passes, 1: fails, 2: no test messages, 3: unreadable)\n", seq);
        l.states += 1;
        l.traces += 1;
        l.transitions += n as u64;
        let count = std::rc::Rc::new(std::cell::Cell::new(0));
        let late = Src::Pat(pat(vec![lit("late")], None));
        let mut src = Counted { items: source(&items).into_iter(), after: source(&[late]).into_iter(), taken: count.clone(), ended: false };
        EVENTS.with(|e| e.borrow_mut().clear());
        let r = guard(|| if what == What::Lenient {
            Ok(<Own as FromPatternSource>::from_source_ignore_errors::<OwnFactory>(&mut src))
        } else {
            <Own as FromPatternSource>::from_source::<OwnFactory>(&mut src)
        });
        logcap::take_errors();
        let events: Vec<Event> = EVENTS.with(|e| e.borrow().clone());
        let r = match r {
            Err(p) => return violation(format!("building panics: {}", p), script()),
            Ok(r) => r,
        };
        l.outcome(&(first, n));
        let end = if what == What::Lenient { n } else { first.map_or(n, |f| f + 1) };
        if count.get() != end {
            return violation(format!("{} items are taken from the source instead of {}", count.get(), end), script());
        }
        // every readable pattern is added once, in order, and its test messages are asked after that
        let added: Vec<usize> = events.iter().filter_map(|e| match *e { Event::Add(i) => Some(i), _ => None }).collect();
        let exp: Vec<usize> = (0..end).filter(|&i| seq[i] != 3).collect();
        if added != exp {
            return violation(format!("the patterns {:?} are added to the matcher, in this order, instead of {:?}", added, exp), script());
        }
        for i in 0..end {
            if let Src::Pat(ref p) = items[i] {
                let at = events.iter().position(|e| *e == Event::Add(i)).unwrap();
                let next = events[at + 1..].iter().position(|e| matches!(*e, Event::Add(_))).map_or(events.len(), |x| at + 1 + x);
                let asked = |m: &str| events[at..next].iter().any(|e| *e == Event::Parse(m.to_owned()));
                if seq[i] != 1 {
                    if let Some(t) = p.tests.as_ref().and_then(|t| t.iter().find(|t| !asked(&t.message))) {
                        return violation(format!("the test message {:?} of item {} is not asked between its pattern and the next one", t.message, i), script());
                    }
                }
            }
        }
        if let Ok(m) = r {
            if m.parse("late").is_some() {
                return violation("an item behind the end of the source is taken".to_owned(), script());
            }
        }
        Ok(())
    })
}

/// C17: files that cannot be read at all.
fn unreadable() -> Family {
    let docs: Vec<(&'static str, Option<Vec<u8>>)> = vec![
        ("json", None), ("yaml", None), ("txt", Some(b"{\"patterns\":[]}".to_vec())), ("json", Some(b"".to_vec())), ("json", Some(b"{\"patterns\":[".to_vec())), ("json", Some(b"{\"patterns\":[{\"uuid\":\"x\"}]}".to_vec())),
        ("json", Some(b"{\"patterns\":[{\"uuid\":\"9a49c47d-29e9-4072-be84-3b76c6814743\",\"pattern\":\"%{\"}]}".to_vec())), ("json", Some(b"\xff\xfe".to_vec())), ("yaml", Some(b"patterns: 3\n".to_vec())), ("yaml", Some(b"patterns: [\n".to_vec())), ("yml", Some(b"x: []\n".to_vec())), ("yml", Some(b"\xff".to_vec())),
    ];
    Family::new("unreadable", format!("{} files that cannot be read or are no pattern files", docs.len()), docs.len() as u64, move |i, l| {
        let (ext, ref content) = docs[i as usize];
        let p = engine::scratch().join(format!("u{}.{}", i, ext));
        if let Some(ref c) = *content {
            std::fs::write(&p, c).expect("write scratch file");
        }
        for k in KINDS.iter() {
            l.states += 1;
            l.traces += 1;
            l.transitions += 1;
            match guard(|| from_file(*k, p.to_str().unwrap(), true).map(|_| ()).map_err(|e| e.to_string())) {
                Err(e) => return violation(format!("loading panics: {}", e), format!("{:?}", docs[i as usize])),
                Ok(Ok(())) => return violation("lenient loading of an unreadable file gives a matcher".to_owned(), format!("{:?}", docs[i as usize])),
                Ok(Err(e)) => l.outcome(&e),
            }
        }
        logcap::take_errors();
        Ok(())
    })
}

fn sources(what: What, tier: Tier) -> Vec<Family> {
    let quick = tier == Tier::Quick;
    let mut f = vec![
        single(what),
        several(what, if quick { 4 } else { 5 }),
        histories(what, 3, false),
        mixed(what, if quick { 4 } else { 5 }),
        long(what, if quick { 24 } else { 64 }),
        through_files(what, if quick { 4 } else { 5 }),
        large_files(what, ladder(if quick { 20 } else { 130 }, if quick { 260 } else { 2100 })),
        near(what),
        sizes(what, if quick { 70 } else { 300 }),
        shared_uuids(what, 3),
        shared_labels(what, if quick { 4 } else { 5 }),
        coincidences(what, "words", ["a".to_owned(), "1".to_owned()], quick),
        coincidences(what, "uuids", [real::uuid(0).hyphenated().to_string(), real::uuid(1).hyphenated().to_string()], quick),
        many_failures(what, if quick { vec![1, 2, 9, 10, 11, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257] } else { (1..=300).chain(vec![511, 512, 513, 1000, 1001, 1023, 1024, 1025]).collect() }),
    ];
    if what != What::Report {
        f.push(taken(what, if quick { 5 } else { 7 }));
    }
    if what == What::Lenient {
        f.push(unreadable());
    }
    if !quick {
        f.push(histories(what, 4, true));
    }
    f.push(cloned(mixed(what, if quick { 3 } else { 4 })));
    f.push(cloned(several(what, if quick { 3 } else { 4 })));
    f.push(cloned(sizes(what, if quick { 20 } else { 70 })));
    f.push(special_uuids(what));
    f.push(odd_texts(what, if quick { 3 } else { 4 }));
    // last: the log level stays
    let mut x = mixed(what, if quick { 3 } else { 4 });
    x.name.push_str("-trace");
    x.bound.push_str(", logging at trace level");
    let run = x.run;
    x.run = Box::new(move |i, l| { logcap::set_level(LogLevelFilter::Trace); run(i, l) });
    f.push(x);
    let mut x = sizes(what, if quick { 20 } else { 70 });
    x.name.push_str("-trace");
    x.bound.push_str(", logging at trace level");
    let run = x.run;
    x.run = Box::new(move |i, l| { logcap::set_level(LogLevelFilter::Trace); run(i, l) });
    f.push(x);
    f
}

fn build(p: &str, tier: Tier) -> Option<Check> {
    logcap::set_level(LogLevelFilter::Error);
    let (families, rule) = match p {
        "C12" => (c12(tier), "two executions differ when the definition is refused for another reason or has other optional parts"),
        "C13" => (c13(tier), "two executions differ when the file is refused for another reason or its patterns have other optional parts"),
        "C15" => (sources(What::Verdict, tier), "two executions differ in the first failing item and the kinds of its failures"),
        "C16" => (sources(What::Report, tier), "two executions differ in the first failing item and the kinds of its failures"),
        "C17" => (sources(What::Lenient, tier), "two executions differ in the number of logged errors and of failures per item"),
        _ => return None,
    };
    Some(Check {
        property: p.to_owned(),
        families,
        rule: rule.to_owned(),
        assumptions: vec![
            "documents contain no duplicate keys; null only as listed (family nulls)".to_owned(),
            "two patterns of a source with the same uuid are told apart by what they match only; sources in which one of them takes a test message of the other are not judged".to_owned(),
            "when several expectations of one pattern fail, reporting any one of them is correct".to_owned(),
        ],
    })
}

fn main() {
    let _: Option<PatternFile> = None;
    engine::main(build)
}
