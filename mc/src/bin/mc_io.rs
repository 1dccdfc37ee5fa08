//! C14: loading a file is all or nothing. C27: what a failed load says. The system calls `read` and `open` of this process go through the
//! functions below, which follow the fault plan of the calling thread; the library and std are unchanged.
use actiondb::matcher::compiled_pattern::TokenType;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::{BuildError, Matcher, PatternLoader};
use log::LogLevelFilter;
use mc::doc::{self, arr, obj, s, strs, V};
use mc::engine::{self, guard, violation, Check, Family, Local, Outcome, Tier};
use mc::logcap;
use mc::real::{self, Kind, KINDS};
use mc::strings::{all_sequences, all_strings, ladder};
use std::cell::RefCell;
use std::sync::Arc;

// ------------------------------------------------ the fault injector

#[derive(Clone, Debug, PartialEq)]
enum Act {
    /// deliver at most this many bytes
    Short(usize),
    /// fail with this errno
    Fail(i32),
}

#[derive(Clone, Debug, Default)]
struct Plan {
    /// answers to the first calls of open
    open: Vec<i32>,
    /// answers to the first calls of read
    first: Vec<Act>,
    /// afterwards every read delivers at most this many bytes (0: no limit)
    chunk: usize,
    /// reading stops working at this byte
    fail_at: Option<(usize, i32)>,
    /// only once: later reads work again
    once: bool,
    /// (asked for, another): opening any other path of the scratch directory gives this valid file instead
    decoy: Option<(String, String)>,
}

#[derive(Default)]
struct Run {
    plan: Plan,
    opens: usize,
    reads: usize,
    at: usize,
    /// hard errors the library was given (EINTR does not count)
    delivered: usize,
    interrupts: usize,
}

thread_local!(static RUN: RefCell<Option<Run>> = const { RefCell::new(None) });

unsafe fn fail(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, n: usize) -> isize {
    let plain = |n: usize| libc::syscall(libc::SYS_read, fd, buf, n) as isize;
    RUN.try_with(|r| {
        let mut r = match r.try_borrow_mut() { Ok(r) => r, Err(_) => return plain(n) };
        let r = match *r { Some(ref mut r) => r, None => return plain(n) };
        let k = r.reads;
        r.reads += 1;
        let mut want = n;
        match r.plan.first.get(k) {
            Some(&Act::Fail(e)) => {
                if e == libc::EINTR { r.interrupts += 1 } else { r.delivered += 1 }
                return fail(e);
            }
            Some(&Act::Short(m)) => want = want.min(m),
            None => if r.plan.chunk > 0 { want = want.min(r.plan.chunk) },
        }
        if let Some((at, e)) = r.plan.fail_at {
            if r.at >= at && !(r.plan.once && r.delivered > 0) {
                if n > 0 {
                    r.delivered += 1;
                    return fail(e);
                }
            } else if r.at < at {
                want = want.min(at - r.at);
            }
        }
        let got = plain(want);
        if got > 0 {
            r.at += got as usize;
        }
        got
    }).unwrap_or_else(|_| plain(n))
}

unsafe fn opened(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    let plain = || libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as i32;
    RUN.try_with(|r| {
        let mut r = match r.try_borrow_mut() { Ok(r) => r, Err(_) => return plain() };
        let r = match *r { Some(ref mut r) => r, None => return plain() };
        let k = r.opens;
        r.opens += 1;
        if let Some((ref asked, ref other)) = r.plan.decoy {
            let name = std::ffi::CStr::from_ptr(path).to_string_lossy().into_owned();
            let real = |p: &str| std::fs::canonicalize(p).ok();
            let scratch = std::env::var("MC_SCRATCH").unwrap_or(String::new());
            if name != *asked && name.starts_with(&scratch) && (real(&name).is_none() || real(&name) != real(asked)) {
                let other = std::ffi::CString::new(other.clone()).unwrap();
                return libc::syscall(libc::SYS_openat, libc::AT_FDCWD, other.as_ptr(), flags, mode) as i32;
            }
        }
        match r.plan.open.get(k) {
            Some(&e) => {
                if e == libc::EINTR { r.interrupts += 1 } else { r.delivered += 1 }
                fail(e) as i32
            }
            None => plain(),
        }
    }).unwrap_or_else(|_| plain())
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    opened(path, flags, mode)
}

/// Runs `f` under the plan; what it returned, the hard errors given and the number of reads.
fn under<T, F: FnOnce() -> T>(plan: &Plan, f: F) -> (Result<T, String>, usize, usize, usize) {
    RUN.with(|r| *r.borrow_mut() = Some(Run { plan: plan.clone(), ..Run::default() }));
    let v = guard(f);
    let r = RUN.with(|r| r.borrow_mut().take()).unwrap();
    (v, r.delivered, r.reads, r.interrupts)
}

// ------------------------------------------------ what is observed

#[derive(Clone, Copy, PartialEq, Debug)]
enum Entry {
    LoadFile,
    FromFile(Kind),
    Lenient(Kind),
}

fn entries() -> Vec<Entry> {
    let mut v = vec![Entry::LoadFile];
    for k in KINDS.iter() {
        v.push(Entry::FromFile(*k));
        v.push(Entry::Lenient(*k));
    }
    v
}

#[derive(Clone, PartialEq, Debug)]
enum Seen {
    Loaded(Vec<String>),
    Io,
    Malformed,
    TestMessage,
    Extension,
    Name,
}

const ASKED: [&str; 8] = ["", "a", "a1", "éx", "zz", "1", "b b", "tail"];

fn call(e: Entry, path: &str) -> Seen {
    fn answers(m: &dyn Matcher) -> Vec<String> {
        ASKED.iter().map(|x| format!("{:?}", m.parse(x).map(|r| (r.pattern().uuid().simple().to_string(), real::owned_values(r.values()))))).collect()
    }
    let r = match e {
        Entry::LoadFile => PatternLoader::load_file(path).map(|f| f.patterns().iter().map(|p| {
            let cp: Vec<String> = p.pattern().iter().map(|t| match *t {
                TokenType::Literal(ref l) => format!("{:?}", l),
                TokenType::Parser(ref p) => format!("{:?}/{:x}", p.name(), p.hash_os()),
            }).collect();
            format!("{:?} {} {:?} {:?} {:?}", p.name(), p.uuid(), cp, p.values(), p.tags())
        }).collect()),
        Entry::FromFile(Kind::Trie) => PatternLoader::from_file::<TrieMatcherFactory>(path).map(|m| answers(&m)),
        Entry::FromFile(Kind::SuffixArray) => PatternLoader::from_file::<SuffixArrayMatcherFactory>(path).map(|m| answers(&m)),
        Entry::Lenient(Kind::Trie) => PatternLoader::from_file_ignore_errors::<TrieMatcherFactory>(path).map(|m| answers(&m)),
        Entry::Lenient(Kind::SuffixArray) => PatternLoader::from_file_ignore_errors::<SuffixArrayMatcherFactory>(path).map(|m| answers(&m)),
    };
    match r {
        Ok(v) => Seen::Loaded(v),
        Err(e) => {
            let _ = e.to_string();
            match e {
                BuildError::Io(_) => Seen::Io,
                BuildError::DeserJson(_) | BuildError::DeserYaml(_) => Seen::Malformed,
                BuildError::TestMessage(_) => Seen::TestMessage,
                BuildError::UnsupportedFileExtension => Seen::Extension,
                BuildError::NotUtf8FileName => Seen::Name,
            }
        }
    }
}

// ------------------------------------------------ files

struct FileSpec {
    ext: &'static str,
    content: Vec<u8>,
    what: String,
}

fn pattern_doc(n: usize, failing: bool) -> V {
    let all = vec![
        obj(&[("uuid", s("9a49c47d-29e9-4072-be84-3b76c6814743")), ("pattern", s("a"))]),
        obj(&[("name", s("second")), ("uuid", s("0b1d2b1a0d3c4a0f8e5b0a0b0c0d0e0f")), ("pattern", s("a%{INT:n}")), ("values", obj(&[("k", s("v"))])), ("test_messages", arr(&[obj(&[("message", s("a1")), ("values", obj(&[("n", s("1"))]))])]))]),
        obj(&[("uuid", s("f13dafee-cd14-4dda-995c-6ed476a21de3")), ("pattern", s("é%{GREEDY:g}")), ("tags", strs(&["t", "ü"]))]),
        obj(&[("uuid", s("f13dafee-cd14-4dda-995c-6ed476a21de4")), ("pattern", s("b b")), ("test_messages", arr(&[obj(&[("message", s(if failing { "c" } else { "b b" }))])]))]),
    ];
    obj(&[("patterns", V::Arr(all[..n].to_vec()))])
}

fn corpus() -> Vec<FileSpec> {
    let mut v = vec![];
    let mut put = |ext, content: String, what: &str| v.push(FileSpec { ext, content: content.into_bytes(), what: what.to_owned() });
    for n in 0..5 {
        put("json", pattern_doc(n, false).json(), "compact JSON");
        put("json", format!("{}\n \n\t\n", pattern_doc(n, false).json_pretty(0)), "JSON with blank tail");
        put("yaml", format!("{}\n", pattern_doc(n, false).yaml_block(0, false)), "block YAML");
        put("yml", format!("---\n{}\n...\n", pattern_doc(n, false).yaml_block(0, true)), "YAML document with plain scalars");
        put("YAML", format!("{}\n# a comment that is long enough to be cut é\n", pattern_doc(n, false).yaml_flow()), "flow YAML with comment");
    }
    put("json", pattern_doc(4, true).json(), "JSON with a failing test message");
    put("yml", pattern_doc(4, true).yaml_block(0, false), "YAML with a failing test message, no newline at the end");
    put("json", "{\"patterns\": [}".to_owned(), "malformed JSON");
    put("yaml", "patterns: [\n".to_owned(), "malformed YAML");
    v
}

fn big_file(ext: &'static str, bytes: usize) -> FileSpec {
    let mut pats = vec![];
    let mut size = 0;
    let mut i = 0;
    while size < bytes {
        let p = obj(&[("uuid", s(&real::uuid(i).hyphenated().to_string())), ("pattern", s(&format!("w{} é %{{INT:n}}", i))), ("tags", strs(&["t"]))]);
        size += p.json().len() + 1;
        pats.push(p);
        i += 1;
    }
    let d = obj(&[("patterns", V::Arr(pats))]);
    let text = if ext == "json" { d.json() } else { format!("{}\n", d.yaml_block(0, false)) };
    FileSpec { ext, content: text.into_bytes(), what: format!("{} patterns", i) }
}

fn put(l: &Local, f: &FileSpec) -> String {
    let p = engine::scratch().join(format!("io{}.{}", l.worker, f.ext));
    std::fs::write(&p, &f.content).expect("write scratch file");
    p.to_str().unwrap().to_owned()
}

fn script(f: &FileSpec, e: Entry, plan: &Plan) -> String {
    format!("{:?} on a .{} file ({}, {} bytes):\n{}\nfaults: {:?}\n", e, f.ext, f.what, f.content.len(), String::from_utf8_lossy(&f.content[..f.content.len().min(2000)]), plan)
}

/// Runs every entry point under the plan and compares with the undisturbed outcome.
fn faulty(f: &FileSpec, path: &str, undisturbed: &[(Entry, Seen)], plan: &Plan, l: &mut Local) -> Outcome {
    for &(e, ref clean) in undisturbed {
        let (r, delivered, reads, ints) = under(plan, || call(e, path));
        logcap::take_errors();
        l.traces += 1;
        l.transitions += reads as u64 + 1;
        let seen = match r {
            Err(p) => return violation(format!("loading panics: {}", p), script(f, e, plan)),
            Ok(s) => s,
        };
        l.outcome(&(delivered > 0, ints, format!("{:?}", std::mem::discriminant(&seen)), reads.min(64)));
        if delivered > 0 {
            if let Seen::Loaded(v) = seen {
                return violation(format!("the system reported an error {} times and loading succeeds with {:?}", delivered, v), script(f, e, plan));
            }
        } else if seen != *clean {
            return violation(format!("short or interrupted reads change the outcome: {:?} instead of {:?}", seen, clean), script(f, e, plan));
        }
    }
    l.states += 1;
    Ok(())
}

fn clean(path: &str, which: &[Entry]) -> Result<Vec<(Entry, Seen)>, String> {
    which.iter().map(|&e| guard(|| call(e, path)).map(|s| (e, s))).collect()
}

fn run_plans<F: Fn(&FileSpec) -> Vec<Plan> + Sync + 'static>(name: &str, what: &str, files: Arc<Vec<FileSpec>>, which: Vec<Entry>, plans: F) -> Family {
    let slices = 16u64;
    let n = files.len() as u64;
    let total: u64 = files.iter().map(|f| plans(f).len() as u64).sum();
    let bound = format!("{}: {} fault plans over {} files, {} entry points", what, total, n, which.len());
    Family::new(name, bound, n * slices, move |item, l| {
        let f = &files[(item / slices) as usize];
        let path = put(l, f);
        let undisturbed = match clean(&path, &which) {
            Ok(u) => u,
            Err(p) => return violation(format!("loading panics: {}", p), script(f, Entry::LoadFile, &Plan::default())),
        };
        for (i, plan) in plans(f).iter().enumerate() {
            if i as u64 % slices == item % slices {
                l.sample(|| format!("{:?} of {}", plan, f.what));
                faulty(f, &path, &undisturbed, plan, l)?;
            }
        }
        Ok(())
    })
}

/// Content that is not UTF-8 at any position must be refused.
fn not_utf8(files: Arc<Vec<FileSpec>>) -> Family {
    let bads: Vec<Vec<u8>> = vec![vec![0xff], vec![0xc3], vec![0x80], vec![0xed, 0xa0, 0x80], vec![0xf0, 0x9f, 0x98], vec![0xc0, 0xaf]];
    let n = files.len() as u64;
    Family::new("not-utf8", format!("{} kinds of bytes that are not UTF-8 inserted at every character boundary of {} files", bads.len(), n), n, move |item, l| {
        let f = &files[item as usize];
        for at in 0..f.content.len() + 1 {
            for bad in &bads {
                let mut c = f.content[..at].to_vec();
                c.extend(bad);
                c.extend(&f.content[at..]);
                if std::str::from_utf8(&c).is_ok() {
                    continue;
                }
                let g = FileSpec { ext: f.ext, content: c, what: format!("{} with bytes {:?} at {}", f.what, bad, at) };
                let path = put(l, &g);
                l.states += 1;
                for e in [Entry::LoadFile, Entry::Lenient(KINDS[at % 2])].iter() {
                    l.traces += 1;
                    l.transitions += 1;
                    let (r, _, _, _) = under(&Plan { chunk: [0, 1, 7][at % 3], ..Plan::default() }, || call(*e, &path));
                    match r {
                        Err(p) => return violation(format!("loading panics: {}", p), script(&g, *e, &Plan::default())),
                        Ok(Seen::Loaded(v)) => return violation(format!("a file that is not UTF-8 is loaded: {:?}", v), script(&g, *e, &Plan::default())),
                        Ok(s) => l.outcome(&format!("{:?}", s)),
                    }
                }
            }
        }
        Ok(())
    })
}

/// Files of exactly these sizes, the last pattern behind the filling: all of it counts.
fn file_sizes(max: usize) -> Family {
    let mut ns: Vec<usize> = ladder(1, max).into_iter().filter(|&n| n >= 400).collect();
    ns.reverse();
    let bound = format!("files of exactly {} sizes from 400 to {} bytes (blanks, line ends, comments or texts between the first and the last pattern, or before, or behind): JSON and YAML", ns.len(), ns[0]);
    Family::new("sizes", bound, ns.len() as u64 * 4, move |item, l| {
        let n = ns[(item / 4) as usize];
        let first = obj(&[("uuid", s("9a49c47d-29e9-4072-be84-3b76c6814743")), ("pattern", s("a"))]);
        let last = obj(&[("uuid", s("f13dafee-cd14-4dda-995c-6ed476a21de3")), ("pattern", s("tail")), ("tags", strs(&["é"]))]);
        // what the file says without the filling
        let plain = match item % 4 {
            0 | 1 => FileSpec { ext: "json", content: format!("{{\"patterns\":[{},{}]}}", first.json(), last.json()).into_bytes(), what: "JSON".to_owned() },
            _ => FileSpec { ext: "yaml", content: format!("patterns:\n- {}\n- {}\n", first.yaml_flow(), last.yaml_flow()).into_bytes(), what: "YAML".to_owned() },
        };
        let path = put(l, &plain);
        let which = [Entry::LoadFile, Entry::FromFile(Kind::Trie)];
        let exp = match clean(&path, &which) {
            Ok(u) => u,
            Err(p) => return violation(format!("loading panics: {}", p), script(&plain, Entry::LoadFile, &Plan::default())),
        };
        if exp.iter().any(|x| !matches!(x.1, Seen::Loaded(ref v) if v.len() >= 2)) {
            return violation(format!("a correct file gives {:?}", exp), script(&plain, Entry::LoadFile, &Plan::default()));
        }
        let text = String::from_utf8(plain.content.clone()).unwrap();
        let at = match item % 4 { 0 => text.find("{\"uuid\":\"f1").unwrap(), 1 => text.len() - 1, 2 => text.rfind("- ").unwrap(), _ => text.len() };
        let fill_len = n.saturating_sub(text.len());
        let fill: String = match item % 4 {
            0 => " ".repeat(fill_len),
            1 => "\n".repeat(fill_len),
            2 => "# comment\n".chars().cycle().take(fill_len.saturating_sub(1)).chain(Some('\n')).collect(),
            _ => "#\n".chars().cycle().take(fill_len).collect(),
        };
        let f = FileSpec { ext: plain.ext, content: format!("{}{}{}", &text[..at], fill, &text[at..]).into_bytes(), what: format!("{} with {} bytes of filling at {}", plain.what, fill.len(), at) };
        let path = put(l, &f);
        for &(e, ref exp) in &exp {
            l.traces += 1;
            l.transitions += 1;
            match guard(|| call(e, &path)) {
                Err(p) => return violation(format!("loading panics: {}", p), script(&f, e, &Plan::default())),
                Ok(ref seen) if seen != exp => return violation(format!("{:?} instead of {:?}", seen, exp), script(&f, e, &Plan::default())),
                Ok(_) => l.outcome(&(n, item % 4)),
            }
        }
        l.states += 1;
        std::fs::write(&path, "").expect("write scratch file");
        Ok(())
    })
}

/// A JSON file cut at any byte (as a crash of the writer leaves it) is refused.
fn truncated(files: Arc<Vec<FileSpec>>) -> Family {
    let files: Vec<usize> = (0..files.len()).filter(|&i| files[i].ext == "json").collect::<Vec<_>>().into_iter().map(|i| i).collect();
    let specs = corpus();
    let n = files.len() as u64;
    Family::new("truncated", format!("{} JSON files cut at every byte inside the document", n), n, move |item, l| {
        let f = &specs[files[item as usize]];
        let end = String::from_utf8_lossy(&f.content).trim_end().len();
        for at in 0..end {
            let g = FileSpec { ext: f.ext, content: f.content[..at].to_vec(), what: format!("{} cut at {}", f.what, at) };
            let path = put(l, &g);
            l.states += 1;
            for e in [Entry::LoadFile, Entry::FromFile(KINDS[at % 2]), Entry::Lenient(KINDS[at % 2])].iter() {
                l.traces += 1;
                l.transitions += 1;
                match guard(|| call(*e, &path)) {
                    Err(p) => return violation(format!("loading panics: {}", p), script(&g, *e, &Plan::default())),
                    Ok(Seen::Loaded(v)) => return violation(format!("a truncated file is loaded: {:?}", v), script(&g, *e, &Plan::default())),
                    Ok(s) => l.outcome(&format!("{:?}", s)),
                }
            }
        }
        Ok(())
    })
}

/// What stands before and after the document (or instead of one) counts as part of the file: the loader answers as
/// the JSON or YAML library does for the whole text.
fn contents() -> Family {
    let bits: Vec<&str> = vec![
        "", "\u{0}", "\u{0}\u{0}", "\n", "\r\n", "\r", " ", "\t", " \n \n", "\u{feff}", "\u{1a}", "\u{4}", "\u{85}", "\u{a0}", "\u{2028}", "\u{c}", "\u{b}", "\u{7f}", "\u{200b}",
        "#", "# x", "# x\n", "#\n#\n", "\n# x\n", "---", "---\n", "--- ", "--- #x\n", "...", "\n...", "\n...\n", "\n...\n# x\n", "\n---\n", "\n---\n...\n", "%YAML 1.2\n---\n", "%\n", "//x\n", "/*x*/", ";", ",", "x", "\nx",
        "{}", "[]", "\"\"", "null", "0", "~", "-", "}", "]", "{", "[", "\n{}", "\n---\n{}", "\n...\n{}", "\n{\"patterns\": []}", "\n---\n{\"patterns\": []}", "\n...\n---\n{\"patterns\": []}\n", "\\", "'", "&a ", "!!map ",
    ];
    let bases: Vec<(String, &'static str)> = vec![
        (String::new(), "no document"),
        ("{\"patterns\": []}".to_owned(), "no patterns"),
        (pattern_doc(2, false).json(), "two patterns, compact"),
        (pattern_doc(3, false).json_pretty(0), "three patterns, spread"),
        (pattern_doc(1, false).yaml_block(0, true), "block YAML"),
        (pattern_doc(3, false).yaml_block(0, false), "block YAML, three patterns"),
    ];
    let n = bits.len();
    let exts = ["json", "yaml", "yml"];
    let bound = format!("{} documents (none, JSON text, block YAML) x {} texts before x {} texts behind (blanks, NUL, byte order mark, comments, document marks, other documents, rubbish) x {} extensions, 5 entry points; the yardstick is what the JSON or YAML library makes of the whole text", bases.len(), n, n, exts.len());
    Family::new("contents", bound, (bases.len() * exts.len() * n) as u64, move |item, l| {
        let mut i = item as usize;
        let before = bits[i % n];
        i /= n;
        let ext = exts[i % exts.len()];
        let (ref base, what) = bases[i / exts.len()];
        for behind in &bits {
            let content = format!("{}{}{}", before, base, behind);
            let read = if ext == "json" { doc::read_json(&content) } else { doc::read_yaml(&content, true) };
            let want: Option<Vec<String>> = match read {
                // not one document of the format, or null instead of one
                None => None,
                Some(None) if ext != "json" || content.trim() == "null" => None,
                Some(None) => continue,
                Some(Some(v)) => doc::file(&v).ok().map(|d| d.into_iter().map(|d| d.uuid).collect()),
            };
            let f = FileSpec { ext, content: content.into_bytes(), what: format!("{} after {:?}, before {:?}", what, before, behind) };
            let path = put(l, &f);
            l.states += 1;
            for e in entries() {
                let got = match guard(|| call(e, &path)) {
                    Ok(s) => s,
                    Err(p) => return violation(format!("loading panics: {}", p), script(&f, e, &Plan::default())),
                };
                logcap::take_errors();
                l.traces += 1;
                l.transitions += 1;
                let fine = match (&want, &got) {
                    (&None, &Seen::Malformed) => true,
                    (&Some(_), &Seen::Loaded(_)) => true,
                    _ => false,
                };
                if !fine {
                    return violation(format!("the text read as a whole gives {}, loading the file gives {:?}", want.as_ref().map_or("no pattern file".to_owned(), |w| format!("a pattern file of {} patterns", w.len())), got), script(&f, e, &Plan::default()));
                }
                if let (&Some(ref w), &Seen::Loaded(ref v)) = (&want, &got) {
                    if e == Entry::LoadFile && (v.len() != w.len() || !v.iter().zip(w).all(|(v, w)| v.replace('-', "").contains(&w[..]))) {
                        return violation(format!("the text read as a whole has the patterns {:?}, loaded are {:?}", w, v), script(&f, e, &Plan::default()));
                    }
                }
                l.outcome(&(format!("{:?}", got).len(), want.as_ref().map(|w| w.len())));
            }
        }
        Ok(())
    })
}

/// What the extension of a path is, spelled out.
fn extension(path: &str) -> Option<&str> {
    let name = path.trim_end_matches('/').rsplit('/').next().unwrap();
    if name == ".." {
        return None;
    }
    match name.rfind('.') {
        None | Some(0) => None,
        Some(i) => Some(&name[i + 1..]),
    }
}

fn names(exts: Vec<String>, name: &str, what: &str) -> Family {
    let chunk = 64;
    let n = exts.len();
    let json = pattern_doc(2, false).json();
    let yaml = format!("{}\n", pattern_doc(3, false).yaml_block(0, true));
    Family::new(name, format!("{}: {} file names, each with JSON and with YAML content", what, n), ((n + chunk - 1) / chunk) as u64, move |item, l| {
        let lo = item as usize * chunk;
        let dir = engine::scratch().join(format!("names{}", l.worker));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        for x in &exts[lo..(lo + chunk).min(n)] {
            let p = dir.join(x);
            let path = p.to_str().unwrap().to_owned();
            if let Some(d) = p.parent() {
                std::fs::create_dir_all(d).expect("scratch directory");
            }
            let kind = match extension(&path) {
                Some("json") => 1,
                Some("yaml") | Some("yml") | Some("YAML") | Some("YML") => 2,
                _ => 0,
            };
            for (content, is_yaml) in [(&json, false), (&yaml, true)].iter() {
                if std::fs::write(&p, content).is_err() {
                    continue;
                }
                l.states += 1;
                for e in entries() {
                    l.traces += 1;
                    l.transitions += 1;
                    let seen = match guard(|| call(e, &path)) {
                        Err(p) => return violation(format!("loading panics: {}", p), format!("{:?} on {:?}\n", e, path)),
                        Ok(s) => s,
                    };
                    l.outcome(&(kind, is_yaml, format!("{:?}", std::mem::discriminant(&seen))));
                    let ok = match (kind, *is_yaml) {
                        (0, _) => seen == Seen::Extension,
                        (1, true) => seen == Seen::Malformed,
                        _ => matches!(seen, Seen::Loaded(_)),
                    };
                    if !ok {
                        return violation(format!("the file name {:?} with {} content gives {:?}", x, if *is_yaml { "YAML" } else { "JSON" }, seen), format!("{:?} on {:?}\n{}\n", e, path, content));
                    }
                }
            }
            let _ = std::fs::remove_file(&p);
            // the same name without a file behind it
            for e in entries() {
                l.traces += 1;
                l.transitions += 1;
                let seen = guard(|| call(e, &path));
                let ok = match (kind, &seen) {
                    (0, &Ok(ref s)) => *s == Seen::Extension,
                    (_, &Ok(ref s)) => *s == Seen::Io,
                    _ => false,
                };
                if !ok {
                    return violation(format!("the missing file {:?} gives {:?}", x, seen), format!("{:?} on {:?}\n", e, path));
                }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        Ok(())
    })
}

fn odd_names() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for stem in ["a", "a.b", ".a", "é", "a b", "a.json", "a.yaml", "a.yml.x", "-", "..a", "json", "x/y", "d.json/f", "d.yaml/f.g", "%"].iter() {
        for ext in ["", ".", ".json", ".yaml", ".yml", ".YAML", ".YML", ".JSON", ".Json", ".Yaml", ".Yml", ".txt", ".json ", ". json", ".jsonl", ".json5", ".jso", ".ymls", ".json~", ".json.bak", ".éjson", ".xml", "json", ".yaml.json", ".json.yaml", "..json", ".json."].iter() {
            v.push(format!("{}{}", stem, ext));
        }
    }
    for n in [".json", ".yaml", ".yml"].iter() {
        v.push(n.to_string());
        v.push(format!("d/{}", n));
    }
    // a directory cannot be a file name elsewhere in the list
    v.retain(|x| x != "d.json" && x != "d.yaml" && x != "x" && x != "d");
    v.sort();
    v.dedup();
    v
}

/// Files next to the one that was asked for (backups, other formats, temporary files) do not count, whether it can be read or not.
fn siblings() -> Family {
    let names = ["p.json", "p.yaml", "p.yml", "p.YAML", "p", "p.txt", "p.yaml.json", ".json"];
    // what is behind the name: nothing, a directory, a broken link, files with different faults, a correct one
    let states = 9u64;
    let bound = format!("{} file names x {} things behind the name (nothing, directory, broken link, empty, not UTF-8, malformed, of the other format, failing test, correct) x 5 entry points, with and without 30 correct pattern files of similar names around, every other path opened answered with a correct file, opening refused or not", names.len(), states);
    Family::new("siblings", bound, names.len() as u64 * states, move |item, l| {
        let name = names[(item / states) as usize];
        let state = item % states;
        let base = engine::scratch().join(format!("siblings{}", l.worker));
        let other = engine::scratch().join(format!("decoy{}.json", l.worker));
        let decoy = pattern_doc(1, false);
        std::fs::write(&other, decoy.json()).expect("write scratch file");
        let mut exp: Vec<(Entry, bool, Seen)> = vec![];
        for crowded in [false, true] {
            let _ = std::fs::remove_dir_all(&base);
            let dir = base.join("d");
            std::fs::create_dir_all(&dir).expect("scratch directory");
            let p = dir.join(name);
            if crowded {
                let stem = name.trim_end_matches(|c| c != '.').trim_end_matches('.');
                let mut around: Vec<String> = ["~", ".bak", ".orig", ".old", ".tmp", ".new", ".swp", ".1", ".json", ".yaml", ".yml", ".local", ".d", ".gz", ".default", "-", ".save"].iter().map(|x| format!("{}{}", name, x)).collect();
                for e in ["json", "yaml", "yml", "YAML", "YML", "bak", "tmp", "adb"] {
                    around.push(format!("{}.{}", if stem.is_empty() { "p" } else { stem }, e));
                }
                around.extend([format!(".{}", name), format!("#{}#", name), format!(".{}.swp", name), name.to_uppercase(), name.to_lowercase(), stem.to_owned(), "patterns.json".to_owned(), "patterns.yaml".to_owned()]);
                for a in around.iter().filter(|a| **a != name && !a.is_empty()) {
                    for d in [&dir, &base] {
                        // JSON is YAML too
                        let _ = std::fs::write(d.join(a), decoy.json());
                    }
                }
                let _ = std::fs::write(base.join(name), decoy.json());
            }
            let yaml = !name.ends_with("json");
            let good = |n, bad| if yaml { format!("{}\n", pattern_doc(n, bad).yaml_block(0, false)) } else { pattern_doc(n, bad).json() };
            let content: Option<Vec<u8>> = match state {
                0 => None,
                1 => { std::fs::create_dir_all(&p).expect("scratch directory"); None }
                2 => { let _ = std::os::unix::fs::symlink("nowhere", &p); None }
                3 => Some(vec![]),
                4 => Some([good(3, false).into_bytes(), vec![0xff]].concat()),
                5 => Some(good(3, false).replace("uuid", "uid").into_bytes()),
                6 => Some(if yaml { b"patterns: [".to_vec() } else { pattern_doc(2, false).yaml_block(0, true).into_bytes() }),
                7 => Some(good(4, true).into_bytes()),
                _ => Some(good(3, false).into_bytes()),
            };
            if let Some(ref c) = content {
                std::fs::write(&p, c).expect("write scratch file");
            }
            let path = p.to_str().unwrap().to_owned();
            for refused in [false, true] {
                for e in entries() {
                    let plan = Plan { open: if refused { vec![libc::EACCES] } else { vec![] }, decoy: if crowded { Some((path.clone(), other.to_str().unwrap().to_owned())) } else { None }, ..Plan::default() };
                    let script = || format!("{:?} on {:?} (state {}, other files around: {}, opening refused: {})\n", e, path, state, crowded, refused);
                    let (r, _, _, _) = under(&plan, || call(e, &path));
                    logcap::take_errors();
                    l.traces += 1;
                    l.transitions += 1;
                    let seen = match r { Err(p) => return violation(format!("loading panics: {}", p), script()), Ok(s) => s };
                    l.outcome(&(state, refused, format!("{:?}", std::mem::discriminant(&seen))));
                    if !crowded {
                        exp.push((e, refused, seen));
                        continue;
                    }
                    let want = &exp.iter().find(|x| x.0 == e && x.1 == refused).unwrap().2;
                    if seen != *want {
                        return violation(format!("files of similar names change the outcome: {:?} instead of {:?}", seen, want), script());
                    }
                    if refused {
                        if let Seen::Loaded(ref v) = seen {
                            return violation(format!("opening is refused and loading succeeds with {:?}", v), script());
                        }
                    }
                }
            }
            l.states += 1;
        }
        let _ = std::fs::remove_dir_all(&base);
        let _ = std::fs::remove_file(&other);
        Ok(())
    })
}

/// A pattern file that says which one it is.
fn marked(n: usize, yaml: bool) -> String {
    let d = obj(&[("patterns", arr(&[obj(&[("uuid", s(&real::uuid(n).hyphenated().to_string())), ("pattern", s("a"))])]))]);
    if yaml { format!("{}\n", d.yaml_block(0, true)) } else { d.json() }
}

/// Paths relative to the current directory, through `..`, links and odd directory names: the file read is the one the system finds under that
/// path, the format is the one of the last name in it.
fn paths(quick: bool) -> Family {
    let parts = [".", "..", "d", "e", "up", "", "~", "$HOME", "*", "%2e%2e", "missing", "d.json", "-", "file:"];
    let names = ["p.json", "p.yaml", "p.txt", "to-txt.json", "to-json.txt", "to-json.yaml", "to-yaml.json", "hard.yml", "p", "a b.json", "$HOME.json", "*.json", "?.yaml", "~.json", "%61.json", "a,b.json", "a:b.json", "a;b.json", "'.json", "\"q\".yaml", "\\.json", "a?b=c.json", "a#b.json", "@p.json", "|p.json", "&1.json", "p.json\n.json"];
    let depth = if quick { 3 } else { 4 };
    let bound = format!("every path of up to {} directories out of {:?}, relative to the current directory and to the absolute name of the scratch directory, times {} file names (links to files of other extensions, hard links, characters special to shells and URLs): each directory holds its own files, 5 entry points", depth, parts, names.len());
    Family::new("paths", bound, 1, move |_, l| {
        let base = engine::scratch().join("paths");
        let _ = std::fs::remove_dir_all(&base);
        let mut marks = 0;
        let dirs = ["", "d", "d/d", "d/e", "d/d/d", "d/d/e", "d/e/e", "d/~", "d/$HOME", "d/*", "d/%2e%2e", "d/d.json", "d/-", "d/file:", "d/d/~", "x", "x/y", "x/y/d", "x/d", "x/e"];
        for d in dirs.iter() {
            let dir = base.join(d);
            std::fs::create_dir_all(&dir).expect("scratch directory");
            for n in names.iter() {
                let p = dir.join(n);
                match *n {
                    "to-txt.json" => std::os::unix::fs::symlink("p.txt", &p).expect("link"),
                    "to-json.txt" | "to-json.yaml" => std::os::unix::fs::symlink("p.json", &p).expect("link"),
                    "to-yaml.json" => std::os::unix::fs::symlink("p.yaml", &p).expect("link"),
                    "hard.yml" => std::fs::hard_link(dir.join("p.json"), &p).expect("link"),
                    _ => {
                        marks += 1;
                        std::fs::write(&p, marked(marks, n.ends_with("yaml"))).expect("write scratch file");
                    }
                }
            }
        }
        // `up` leads elsewhere, so that up/.. is not where it stands
        std::os::unix::fs::symlink(base.join("x/y"), base.join("d/up")).expect("link");
        std::os::unix::fs::symlink("../../x/y", base.join("d/d/up")).expect("link");
        let old = std::env::current_dir().expect("current directory");
        std::env::set_current_dir(base.join("d")).expect("scratch directory");
        let r = (|| {
            for seq in (0..depth + 1).flat_map(|k| all_sequences(parts.len(), k)) {
                let dir: String = seq.iter().map(|&i| format!("{}/", parts[i])).collect();
                for n in names.iter() {
                    for absolute in [false, true].iter() {
                        let path = if *absolute { format!("{}/d/{}{}", base.to_str().unwrap(), dir, n) } else { format!("{}{}", dir, n) };
                        if !absolute && path.starts_with('/') {
                            continue;
                        }
                        l.states += 1;
                        let content = std::fs::read(&path);
                        let kind = match extension(&path) { Some("json") => 1, Some("yaml") | Some("yml") => 2, _ => 0 };
                        let which: Vec<Entry> = if seq.len() < 2 { entries() } else { vec![Entry::LoadFile] };
                        for e in which {
                            l.traces += 1;
                            l.transitions += 1;
                            let script = || format!("{:?} on {:?} in the directory d of a tree in which each directory has its own files; there is {:?}\n", e, path, content.as_ref().map(|c| String::from_utf8_lossy(c).into_owned()));
                            let seen = match guard(|| call(e, &path)) { Err(p) => return violation(format!("loading panics: {}", p), script()), Ok(s) => s };
                            l.outcome(&(kind, content.is_ok(), format!("{:?}", std::mem::discriminant(&seen))));
                            let ok = match (kind, &content) {
                                (0, _) => seen == Seen::Extension,
                                (_, &Err(_)) => seen == Seen::Io,
                                (k, &Ok(ref c)) => {
                                    let text = String::from_utf8_lossy(c);
                                    if k == 1 && !text.starts_with('{') {
                                        seen == Seen::Malformed
                                    } else {
                                        match seen {
                                            // the uuid is the mark of the file
                                            Seen::Loaded(ref v) => v.iter().any(|a| {
                                                let id = text.replace('-', "");
                                                a.replace('-', "").split(|c: char| !c.is_ascii_hexdigit()).any(|w| w.len() == 32 && id.contains(w))
                                            }),
                                            _ => false,
                                        }
                                    }
                                }
                            };
                            if !ok {
                                return violation(format!("the path {:?} gives {:?}", path, seen), script());
                            }
                        }
                    }
                }
            }
            Ok(())
        })();
        std::env::set_current_dir(&old).expect("current directory");
        if r.is_ok() {
            let _ = std::fs::remove_dir_all(&base);
        }
        r
    })
}

/// Pipes under the names of pattern files: the system tells no size, reads are as short as the writes.
fn pipes(files: Arc<Vec<FileSpec>>) -> Family {
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::time::{Duration, Instant};
    let n = files.len() as u64;
    let pieces = [usize::max_value(), 1, 7, 64];
    Family::new("pipes", format!("{} contents given through named pipes in pieces of {:?} bytes, undisturbed and with a read error at 5 places, 5 entry points", n, &pieces[1..]), n, move |item, l| {
        let f = &files[item as usize];
        let path = put(l, f);
        let undisturbed = match clean(&path, &entries()) {
            Ok(u) => u,
            Err(p) => return violation(format!("loading panics: {}", p), script(f, Entry::LoadFile, &Plan::default())),
        };
        let fifo = engine::scratch().join(format!("pipe{}.{}", l.worker, f.ext));
        let _ = std::fs::remove_file(&fifo);
        let name = std::ffi::CString::new(fifo.to_str().unwrap()).unwrap();
        assert_eq!(unsafe { libc::mkfifo(name.as_ptr(), 0o600) }, 0, "mkfifo");
        let len = f.content.len();
        let mut r = Ok(());
        for &piece in &pieces {
            // the load asked for, and the one the writer is ready for; the writer has the pipe open only while it serves one
            let (asked, ready) = (AtomicUsize::new(0), AtomicUsize::new(0));
            let end = usize::max_value();
            r = std::thread::scope(|sc| {
                sc.spawn(|| {
                    let mut load = 0;
                    let mut naps = 0u32; // to be taken before a load is served
                    loop {
                        let now = asked.load(Ordering::SeqCst);
                        if now == end {
                            return;
                        }
                        if now != load {
                            load = now;
                            naps = 0;
                            ready.store(load, Ordering::SeqCst);
                        }
                        if load == 0 || naps > 0 {
                            naps = naps.saturating_sub(1);
                            std::thread::sleep(Duration::from_micros(20));
                            continue;
                        }
                        let fd = unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, name.as_ptr(), libc::O_WRONLY | libc::O_NONBLOCK | libc::O_CLOEXEC, 0) as i32 };
                        if fd < 0 {
                            std::thread::sleep(Duration::from_micros(20));
                            continue;
                        }
                        unsafe { libc::fcntl(fd, libc::F_SETFL, 0) };
                        for c in f.content.chunks(piece) {
                            if unsafe { libc::write(fd, c.as_ptr() as *const _, c.len()) } < 0 {
                                break;
                            }
                        }
                        unsafe { libc::close(fd) };
                        // a load that goes on opens the pipe again
                        naps = 100_000;
                    }
                });
                let mut plans = vec![Plan::default()];
                if piece != 1 {
                    for at in [0, 1, len / 2, len.saturating_sub(1), len].iter() {
                        plans.push(Plan { fail_at: Some((*at, libc::EIO)), ..Plan::default() });
                    }
                }
                let mut r = Ok(());
                'all: for plan in &plans {
                    for u in &undisturbed {
                        let load = asked.load(Ordering::SeqCst) + 1;
                        asked.store(load, Ordering::SeqCst);
                        while ready.load(Ordering::SeqCst) != load {
                            std::thread::sleep(Duration::from_micros(20));
                        }
                        r = faulty(f, fifo.to_str().unwrap(), std::slice::from_ref(u), plan, l);
                        if r.is_err() {
                            break 'all;
                        }
                    }
                }
                asked.store(end, Ordering::SeqCst);
                r
            });
            if r.is_err() {
                break;
            }
        }
        let _ = std::fs::remove_file(&fifo);
        r
    })
}

/// All that could stand for something else in a name: `%XX`, a backslash before each character, pairs of marks.
fn punctuated(quick: bool) -> Vec<String> {
    let mut v = vec![];
    let marks: Vec<char> = (32u8..127).map(|b| b as char).filter(|c| !c.is_ascii_alphanumeric() && *c != '/').collect();
    for b in 0..256 {
        v.push(format!("%{:02X}", b));
        v.push(format!("%{:02x}", b));
    }
    for c in (1u8..127).map(|b| b as char).filter(|c| *c != '/') {
        for lead in ["\\", "$", "&", "^", "#", "=", "+", "%", "~", "@"] {
            v.push(format!("{}{}", lead, c));
        }
        v.push(format!("{}", c));
    }
    for a in &marks {
        for b in &marks {
            v.push(format!("{}{}", a, b));
            if !quick {
                for c in &marks {
                    v.push(format!("{}{}{}", a, b, c));
                }
            }
        }
    }
    v.extend(["${HOME}", "$(x)", "`x`", "{a,b}", "[a]", "\\x41", "\\u0041", "&amp;", "&#65;", "=20", "+", "%u0041", "<x>", "http:", "~root", "%%", "%s", "%d", "%n", "{}", "{0}"].iter().map(|s| s.to_string()));
    v.sort();
    v.dedup();
    v
}

/// Files whose names hold such texts, in the middle, at the beginning and before the extension: it is that very file that is read.
fn special_names(quick: bool) -> Family {
    let all = punctuated(quick);
    let (n, chunk) = (all.len(), 50);
    Family::new("special-names", format!("{} texts that shells, URLs, formats and file systems elsewhere read as something else, at 3 places of a file name and as the name of a directory", n), ((n + chunk - 1) / chunk) as u64, move |item, l| {
        let dir = engine::scratch().join(format!("special{}", l.worker));
        let lo = item as usize * chunk;
        for (i, x) in all[lo..(lo + chunk).min(n)].iter().enumerate() {
            for (k, name) in [format!("a{}b.json", x), format!("{}b.yaml", x), format!("a{}.yml", x), format!("a{}b/f.json", x)].iter().enumerate() {
                let p = dir.join(name);
                std::fs::create_dir_all(p.parent().unwrap()).expect("scratch directory");
                std::fs::write(&p, marked(1 + (i + k) % 200, !name.ends_with("json"))).expect("write scratch file");
                l.states += 1;
                for e in [Entry::LoadFile, Entry::FromFile(Kind::Trie), Entry::Lenient(Kind::SuffixArray)].iter() {
                    l.traces += 1;
                    l.transitions += 1;
                    let path = p.to_str().unwrap();
                    let seen = guard(|| call(*e, path));
                    l.outcome(&(k, format!("{:?}", seen).len()));
                    let id = real::uuid(1 + (i + k) % 200);
                    let ok = matches!(seen, Ok(Seen::Loaded(ref v)) if v.iter().any(|v| v.contains(&id.simple().to_string()) || v.contains(&id.hyphenated().to_string())));
                    if !ok {
                        return violation(format!("the file {:?} is there, loading it gives {:?}", path, seen), format!("{:?} on {:?}\n{}\n", e, path, marked(1 + (i + k) % 200, !name.ends_with("json"))));
                    }
                }
                std::fs::remove_file(&p).expect("remove scratch file");
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        Ok(())
    })
}

/// One path whose content changes between loads, always of one size and with one time stamp.
fn rewritten(quick: bool) -> Family {
    let exts = ["json", "yaml", "yml"];
    let ways = ["written over in place", "truncated and written", "replaced by renaming another file", "removed and created", "a link turned to another file"];
    let depth = if quick { 3 } else { 4 };
    let contents = |ext: &str| -> Vec<Vec<u8>> {
        let mut v: Vec<String> = vec![marked(1, ext != "json"), marked(2, ext != "json"), marked(1, ext != "json").replacen("patterns", "qatterns", 1), if ext == "json" { pattern_doc(1, false).json() } else { pattern_doc(1, false).yaml_block(0, true) }, if ext == "json" { "{".to_owned() } else { "[".to_owned() }, pattern_doc(4, true).json(), String::new()];
        let len = v.iter().map(|s| s.len()).max().unwrap();
        for s in &mut v {
            while s.len() < len {
                s.push(if s.len() + 1 == len { '\n' } else { ' ' });
            }
        }
        v.into_iter().map(|s| s.into_bytes()).collect()
    };
    let n = contents("json").len();
    let seqs = all_sequences(n, depth);
    let per = 7;
    let slices = (seqs.len() + per - 1) / per;
    let bound = format!("every sequence of {} contents out of {} of one size and one time stamp under one path, changed in {} ways, {} extensions; loaded by 5 entry points each time", depth, n, ways.len(), exts.len());
    Family::new("rewritten", bound, (slices * ways.len() * exts.len()) as u64, move |item, l| {
        let mut i = item as usize;
        let way = i % ways.len();
        i /= ways.len();
        let ext = exts[i % exts.len()];
        let slice = i / exts.len();
        let dir = engine::scratch().join(format!("rewritten{}", l.worker));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let set = |p: &std::path::Path, c: &[u8]| {
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().write(true).create(true).truncate(way != 0).open(p).expect("scratch file");
            f.write_all(c).expect("write scratch file");
            f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000)).expect("time stamp");
        };
        let all = contents(ext);
        // each content alone, under a name of its own that is never used again
        let expected: Vec<Vec<Result<Seen, String>>> = all.iter().enumerate().map(|(k, c)| {
            let p = dir.join(format!("own{}-{}.{}", item, k, ext));
            set(&p, c);
            entries().into_iter().map(|e| guard(|| call(e, p.to_str().unwrap()))).collect()
        }).collect();
        let path = dir.join(format!("one.{}", ext));
        for seq in seqs.iter().skip(slice * per).take(per) {
            for (step, &k) in seq.iter().enumerate() {
                match way {
                    0 | 1 => set(&path, &all[k]),
                    2 => {
                        let q = dir.join(format!("tmp.{}", ext));
                        set(&q, &all[k]);
                        std::fs::rename(&q, &path).expect("rename");
                    }
                    3 => {
                        let _ = std::fs::remove_file(&path);
                        set(&path, &all[k]);
                    }
                    _ => {
                        let _ = std::fs::remove_file(&path);
                        std::os::unix::fs::symlink(format!("own{}-{}.{}", item, k, ext), &path).expect("link");
                    }
                }
                l.states += 1;
                for (j, e) in entries().into_iter().enumerate() {
                    l.traces += 1;
                    l.transitions += 1;
                    let seen = guard(|| call(e, path.to_str().unwrap()));
                    logcap::take_errors();
                    if seen != expected[k][j] {
                        let texts: Vec<String> = seq[..step + 1].iter().map(|&k| String::from_utf8_lossy(&all[k]).trim_end().to_owned()).collect();
                        return violation(format!("load number {} of the same path gives {:?}, that content alone gives {:?}", step + 1, seen, expected[k][j]), format!("{:?} on {:?}, {} each time, contents of {} bytes each (blanks at the end) with the same time stamp:\n{}\n", e, path, ways[way], all[k].len(), texts.join("\n---- then\n")));
                    }
                    l.outcome(&(way, ext, k, j));
                }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        Ok(())
    })
}

/// Directories and special files under the names of pattern files.
fn directories() -> Family {
    let names = ["d.json", "d.yaml", "d.yml", "d.YAML", "d.YML", "nothing/d.json", "nothing/d.yaml", "d.json/"];
    Family::new("directories", format!("{} directories, missing directories and broken links under the names of pattern files", names.len()), 1, move |_, l| {
        let dir = engine::scratch().join("dirs");
        for n in names.iter() {
            let p = dir.join(n);
            if !n.starts_with("nothing") {
                std::fs::create_dir_all(&p).expect("scratch directory");
            }
            let link = dir.join(format!("link-{}", n.replace('/', "_").trim_end_matches('_')));
            let _ = std::os::unix::fs::symlink("nowhere.json", &link);
            for path in [p.to_str().unwrap(), link.to_str().unwrap()].iter() {
                for e in entries() {
                    l.states += 1;
                    l.traces += 1;
                    l.transitions += 1;
                    match guard(|| call(e, path)) {
                        Ok(Seen::Loaded(v)) => return violation(format!("{:?} is loaded: {:?}", path, v), format!("{:?} on {:?}\n", e, path)),
                        Err(p) => return violation(format!("loading panics: {}", p), format!("{:?} on {:?}\n", e, path)),
                        Ok(s) => l.outcome(&format!("{:?}", s)),
                    }
                }
            }
        }
        Ok(())
    })
}

fn every_position(f: &FileSpec, errs: &[i32]) -> Vec<Plan> {
    let mut v = vec![];
    for at in 0..f.content.len() + 1 {
        for &e in errs {
            v.push(Plan { fail_at: Some((at, e)), ..Plan::default() });
        }
    }
    v
}

// ------------------------------------------------ C27: what a failed load says

/// A failed load, as far as it can be told apart.
#[derive(Clone, PartialEq, Debug)]
enum Why {
    Fine,
    Io(Option<i32>, std::io::ErrorKind),
    /// code, line, column
    Json(String, usize, usize),
    JsonOther,
    Yaml,
    TestMessage,
    Extension,
    Name,
}

/// What the entry point says; the printed form of the error, and whether the wrapping changed what it prints.
fn ask(e: Entry, path: &str) -> (Why, String, Option<String>) {
    use std::error::Error;
    let r = match e {
        Entry::LoadFile => PatternLoader::load_file(path).map(|_| ()),
        Entry::FromFile(Kind::Trie) => PatternLoader::from_file::<TrieMatcherFactory>(path).map(|_| ()),
        Entry::FromFile(Kind::SuffixArray) => PatternLoader::from_file::<SuffixArrayMatcherFactory>(path).map(|_| ()),
        Entry::Lenient(Kind::Trie) => PatternLoader::from_file_ignore_errors::<TrieMatcherFactory>(path).map(|_| ()),
        Entry::Lenient(Kind::SuffixArray) => PatternLoader::from_file_ignore_errors::<SuffixArrayMatcherFactory>(path).map(|_| ()),
    };
    let err = match r {
        Ok(()) => return (Why::Fine, String::new(), None),
        Err(err) => err,
    };
    let text = err.to_string();
    #[allow(deprecated)]
    let told = err.description().to_owned();
    #[allow(deprecated)]
    let _ = (err.cause().map(|c| c.to_string()), format!("{:?}", err));
    #[allow(deprecated)]
    let (why, inner, inner_told) = match err {
        BuildError::Io(ref e) => (Why::Io(e.raw_os_error(), e.kind()), e.to_string(), e.description().to_owned()),
        BuildError::DeserJson(ref e) => (match *e {
            serde_json::Error::Syntax(ref c, line, col) => Why::Json(format!("{:?}", c), line, col),
            _ => Why::JsonOther,
        }, e.to_string(), e.description().to_owned()),
        BuildError::DeserYaml(ref e) => (Why::Yaml, e.to_string(), e.description().to_owned()),
        BuildError::TestMessage(ref e) => (Why::TestMessage, e.to_string(), e.description().to_owned()),
        BuildError::UnsupportedFileExtension => (Why::Extension, text.clone(), told.clone()),
        BuildError::NotUtf8FileName => (Why::Name, text.clone(), told.clone()),
    };
    let wrong = if text.is_empty() || told.is_empty() {
        Some("the printed form or the description is empty".to_owned())
    } else if !text.contains(&inner) || !told.contains(&inner_told) {
        Some(format!("the underlying error prints as {:?} ({:?}), the one that is returned as {:?} ({:?})", inner, inner_told, text, told))
    } else {
        None
    };
    (why, text, wrong)
}

fn explain(f: &FileSpec, e: Entry, plan: &Plan, path: &str, l: &mut Local) -> Result<(Why, String, usize), engine::Violation> {
    let (r, delivered, reads, _) = under(plan, || ask(e, path));
    l.traces += 1;
    l.transitions += reads as u64 + 1;
    match r {
        Err(p) => violation(format!("loading panics: {}", p), script(f, e, plan)),
        Ok((_, _, Some(wrong))) => violation(wrong, script(f, e, plan)),
        Ok((why, text, None)) => {
            l.outcome(&(format!("{:?}", std::mem::discriminant(&why)), text.len()));
            Ok((why, text, delivered))
        }
    }
}

fn os_errors() -> Family {
    let files: Vec<FileSpec> = corpus().into_iter().filter(|f| f.content.len() > 100 && f.content.len() < 800).collect();
    let errs: Vec<i32> = (1..134).filter(|&e| e != libc::EINTR && e != 41 && e != 58).collect();
    let n = files.len() as u64;
    Family::new("os-errors", format!("every error code of the system ({}) at open and at read (at the start, at 3 places inside, at the end) of {} files, by 5 entry points", errs.len(), n), n, move |item, l| {
        let f = &files[item as usize];
        let path = put(l, f);
        let len = f.content.len();
        for &errno in &errs {
            let mut plans = vec![Plan { open: vec![errno], ..Plan::default() }];
            for at in [0, 1, len / 2, len - 1, len].iter() {
                plans.push(Plan { fail_at: Some((*at, errno)), ..Plan::default() });
            }
            for plan in &plans {
                l.states += 1;
                for e in entries() {
                    let (why, text, delivered) = explain(f, e, plan, &path, l)?;
                    logcap::take_errors();
                    if delivered == 0 {
                        continue;
                    }
                    let exp = std::io::Error::from_raw_os_error(errno);
                    if why != Why::Io(Some(errno), exp.kind()) || !text.contains(&exp.to_string()) {
                        return violation(format!("the system reported {:?}, the load says {:?}: {:?}", exp, why, text), script(f, e, plan));
                    }
                }
            }
        }
        Ok(())
    })
}

fn not_text() -> Family {
    let files: Vec<FileSpec> = corpus().into_iter().filter(|f| f.content.len() < 800).collect();
    let n = files.len() as u64;
    Family::new("not-text", format!("a byte that is not UTF-8 at every character boundary of {} files", n), n, move |item, l| {
        let f = &files[item as usize];
        for at in 0..f.content.len() + 1 {
            let mut c = f.content[..at].to_vec();
            c.push([0xff, 0xc3, 0x80][at % 3]);
            c.extend(&f.content[at..]);
            if std::str::from_utf8(&c).is_ok() {
                continue;
            }
            let g = FileSpec { ext: f.ext, content: c, what: format!("{} with a wrong byte at {}", f.what, at) };
            let path = put(l, &g);
            l.states += 1;
            for e in entries() {
                let (why, text, _) = explain(&g, e, &Plan::default(), &path, l)?;
                match why {
                    Why::Io(None, std::io::ErrorKind::InvalidData) => (),
                    why => return violation(format!("the file is not UTF-8, the load says {:?}: {:?}", why, text), script(&g, e, &Plan::default())),
                }
            }
        }
        Ok(())
    })
}

/// Files with one thing wrong in the format: cut at every place, a character put in or left out at every place.
fn damaged(ext: &'static str, quick: bool) -> Family {
    let mut texts: Vec<String> = vec![];
    for n in 1..5 {
        let d = pattern_doc(n, false);
        if ext == "json" {
            texts.push(d.json());
            texts.push(format!("{}\n", d.json_pretty(0)));
            texts.push(format!("\r\n\n  {}", d.json_pretty(2).replace('\n', "\r\n")));
        } else {
            texts.push(format!("{}\n", d.yaml_block(0, false)));
            texts.push(format!("\n# c é\n{}\n", d.yaml_block(0, true)));
            texts.push(d.yaml_flow());
            texts.push(format!("\r\n{}\r\n", d.yaml_block(0, false).replace('\n', "\r\n")));
        }
    }
    let put_in: Vec<char> = if quick { "}],\"x\u{1}é".chars().collect() } else { "{}[],:\"'\\x1\u{1}é\u{feff}\t\n-&*!%@`#|>".chars().collect() };
    let n = texts.len() as u64;
    let name = if ext == "json" { "damaged-json" } else { "damaged-yaml" };
    Family::new(name, format!("{} files cut at every character, each character left out, and each of {:?} put in at every place: kind of error, and for syntax errors the place in the file", n, put_in), n, move |item, l| {
        let t = &texts[item as usize];
        let mut variants: Vec<String> = vec![];
        let places: Vec<usize> = t.char_indices().map(|x| x.0).chain(Some(t.len())).collect();
        for (k, &at) in places.iter().enumerate() {
            variants.push(t[..at].to_owned());
            if k + 1 < places.len() {
                variants.push(format!("{}{}", &t[..at], &t[places[k + 1]..]));
            }
            for c in &put_in {
                variants.push(format!("{}{}{}", &t[..at], c, &t[at..]));
            }
        }
        for (k, v) in variants.into_iter().enumerate() {
            let f = FileSpec { ext, content: v.clone().into_bytes(), what: "damaged file".to_owned() };
            let path = put(l, &f);
            l.states += 1;
            let e = entries()[k % 5];
            let (why, text, _) = explain(&f, e, &Plan::default(), &path, l)?;
            let sc = || script(&f, e, &Plan::default());
            if ext == "json" {
                let reference = serde_json::from_str::<serde_json::Value>(&v);
                match (reference, why) {
                    (Ok(_), Why::Fine) | (Ok(_), Why::Json(..)) | (Ok(_), Why::TestMessage) => (),
                    (Err(serde_json::Error::Syntax(code, line, col)), Why::Json(c, gl, gc)) => {
                        let code = format!("{:?}", code);
                        // wrong contents may be noticed before the wrong syntax; a place behind it is impossible
                        if (gl, gc) > (line, col) || (c == code && (gl, gc) != (line, col)) {
                            return violation(format!("the file goes wrong at {}:{} ({}), the load says {}:{} ({})", line, col, code, gl, gc, text), sc());
                        }
                        if !text.contains(&format!("{}", gl)) || !text.contains(&format!("{}", gc)) {
                            return violation(format!("the printed form does not show the place {}:{}: {:?}", gl, gc, text), sc());
                        }
                    }
                    (r, why) => return violation(format!("reading the JSON text gives {:?}, the load says {:?}: {:?}", r.map(|_| "a value"), why, text), sc()),
                }
            } else {
                match (yaml_rust::YamlLoader::load_from_str(&v), why) {
                    (Ok(_), Why::Fine) | (Ok(_), Why::Yaml) | (Ok(_), Why::TestMessage) => (),
                    (Err(r), Why::Yaml) => {
                        if !text.contains(&r.to_string()) {
                            return violation(format!("the file goes wrong with {:?}, the load says {:?}", r.to_string(), text), sc());
                        }
                    }
                    (r, why) => return violation(format!("reading the YAML text gives {:?}, the load says {:?}: {:?}", r.map(|_| "a value"), why, text), sc()),
                }
            }
            logcap::take_errors();
        }
        Ok(())
    })
}

/// Files in which one pattern text is malformed: the log tells which.
fn bad_texts() -> Family {
    let bads = ["%{", "a%{INX:x}", "%{INT", "%{SET(\"a\"}", "a\n\n%{INT:é}", "%{INT(min_len=x)}", "é%{INT(max_len=99999999999999999999)}", "", "\r\n%{"];
    let n = bads.len() as u64;
    Family::new("bad-texts", format!("{} malformed pattern texts as each of up to 3 definitions, with and without name, in every order of the fields, JSON and YAML", n), n, move |item, l| {
        let bad = bads[item as usize];
        let at = match actiondb::grammar::parser::pattern(bad) {
            Err(e) => format!("{}:{}", e.line, e.column),
            Ok(_) => return Ok(()),
        };
        for count in 1..4usize {
            for which in 0..count {
                for named in 0..2 {
                    for order in 0..6 {
                        let defs: Vec<V> = (0..count).map(|i| {
                            let id = real::uuid(i).hyphenated().to_string();
                            let mut fields = vec![("uuid", s(&id)), ("pattern", s(if i == which { bad } else { "a" })), ("tags", strs(&["t"]))];
                            if named == 1 {
                                fields.push(("name", s(&format!("NAME{}", i))));
                            }
                            let len = fields.len();
                            fields.rotate_left(order % len);
                            if order >= 3 {
                                fields.reverse();
                            }
                            obj(&fields)
                        }).collect();
                        let d = obj(&[("patterns", V::Arr(defs))]);
                        for (ext, content) in [("json", d.json()), ("yaml", format!("{}\n", d.yaml_block(0, false))), ("yml", d.yaml_flow())].iter() {
                            let f = FileSpec { ext, content: content.clone().into_bytes(), what: "a malformed pattern text".to_owned() };
                            let path = put(l, &f);
                            l.states += 1;
                            for e in entries() {
                                logcap::take_errors();
                                let (why, text, _) = explain(&f, e, &Plan::default(), &path, l)?;
                                let logged = logcap::take_errors();
                                let sc = || script(&f, e, &Plan::default());
                                match (&why, *ext) {
                                    (&Why::Json(..), "json") | (&Why::Yaml, "yaml") | (&Why::Yaml, "yml") => (),
                                    _ => return violation(format!("a malformed pattern text gives {:?}: {:?}", why, text), sc()),
                                }
                                let id = real::uuid(which);
                                let good = logged.iter().any(|m| m.contains(&at) && (m.contains(&id.hyphenated().to_string()) || m.contains(&id.simple().to_string()) || m.contains(&format!("{:?}", id))) && (named == 0 || m.contains(&format!("NAME{}", which))));
                                if !good {
                                    return violation(format!("no error is logged that names the pattern {:?} (uuid, name) and the place {:?}: {:?}", which, at, logged), sc());
                                }
                                for i in (0..count).filter(|&i| i != which) {
                                    if logged.iter().any(|m| m.contains(&format!("{:?}", real::uuid(i)))) {
                                        return violation(format!("the error that is logged names the correct pattern {}: {:?}", i, logged), sc());
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    })
}

/// Names and contents crossed: the first thing that is wrong decides.
fn stages() -> Family {
    let exts = ["json", "yaml", "yml", "YAML", "YML", "JSON", "Json", "txt", "", "jsonx", "json.txt", "txt.json", "txt.yml"];
    let contents: Vec<(&str, Vec<u8>, u8)> = vec![
        ("correct", pattern_doc(3, false).json().into_bytes(), 0),
        ("failing test message", pattern_doc(4, true).json().into_bytes(), 1),
        ("malformed", b"{\"patterns\": [}".to_vec(), 2),
        ("unknown field", b"{\"patterns\": [], \"x\": 1}".to_vec(), 2),
        ("no patterns", b"{}".to_vec(), 2),
        ("not UTF-8", b"{\"patterns\": [], \"\xff".to_vec(), 3),
        ("missing", vec![], 4),
    ];
    let n = (exts.len() * contents.len()) as u64;
    Family::new("stages", format!("{} extensions x {} contents (JSON text, which is YAML as well), 5 entry points", exts.len(), contents.len()), n, move |item, l| {
        let ext = exts[item as usize % exts.len()];
        let (what, ref content, kind) = contents[item as usize / exts.len()];
        let p = engine::scratch().join(if ext.is_empty() { format!("stage{}", item) } else { format!("stage{}.{}", item, ext) });
        if kind != 4 {
            std::fs::write(&p, content).expect("write scratch file");
        }
        let path = p.to_str().unwrap().to_owned();
        let f = FileSpec { ext: "", content: content.clone(), what: format!("{} under the name x.{}", what, ext) };
        let format = match ext.rsplit('.').next().unwrap() { "json" => 1, "yaml" | "yml" | "YAML" | "YML" => 2, _ => 0 };
        l.states += 1;
        for e in entries() {
            let (why, text, _) = explain(&f, e, &Plan::default(), &path, l)?;
            let errors = logcap::take_errors();
            let strict = matches!(e, Entry::FromFile(_));
            let ok = match (format, kind, &why) {
                (0, _, &Why::Extension) => true,
                (0, _, _) => false,
                (_, 0, &Why::Fine) => true,
                (_, 1, &Why::TestMessage) => strict,
                (_, 1, &Why::Fine) => !strict && (e == Entry::LoadFile || errors.len() == 1),
                (1, 2, &Why::Json(..)) => true,
                (2, 2, &Why::Yaml) => true,
                (_, 3, &Why::Io(None, std::io::ErrorKind::InvalidData)) => true,
                (_, 4, &Why::Io(Some(libc::ENOENT), _)) => true,
                _ => false,
            };
            if !ok {
                return violation(format!("{} gives {:?}: {:?}", f.what, why, text), script(&f, e, &Plan::default()));
            }
        }
        let _ = std::fs::remove_file(&p);
        Ok(())
    })
}

fn errors_check(p: &str, tier: Tier) -> Check {
    let quick = tier == Tier::Quick;
    Check {
        property: p.to_owned(),
        families: vec![stages(), bad_texts(), os_errors(), not_text(), damaged("json", quick), damaged("yaml", quick)],
        rule: "two executions differ in the kind of the error or the length of its printed form".to_owned(),
        assumptions: vec![
            "the places of syntax errors are those the JSON and YAML libraries give for the text of the file alone".to_owned(),
            "what is wrong with the contents (unknown fields, wrong types) may be noticed before a syntax error that comes later".to_owned(),
        ],
    }
}

fn build(p: &str, tier: Tier) -> Option<Check> {
    if p != "C14" && p != "C27" {
        return None;
    }
    logcap::set_level(LogLevelFilter::Error);
    if p == "C27" {
        return Some(errors_check(p, tier));
    }
    let quick = tier == Tier::Quick;
    let files = Arc::new(corpus());
    let pipe_files = Arc::new(corpus().into_iter().chain(vec![big_file("json", 200_000), big_file("yaml", 100_000)]).collect::<Vec<_>>());
    let big = Arc::new(if quick { vec![big_file("json", 20_000), big_file("yaml", 20_000)] } else { vec![big_file("json", 70_000), big_file("yaml", 70_000), big_file("json", 20_000), big_file("yaml", 20_000)] });
    let errs = [libc::EIO, libc::EISDIR, libc::EAGAIN, libc::ENOMEM, libc::EBADF, libc::ESTALE, libc::ETIMEDOUT, libc::ENXIO];
    let mut f = vec![
        run_plans("errors", "every read error at every byte position", files.clone(), entries(), move |f| every_position(f, &errs[..if quick { 2 } else { 8 }])),
        run_plans("errors-chunked", "a read error at every byte position, with 1-, 3- and 64-byte reads, lasting and passing", files.clone(), vec![Entry::LoadFile, Entry::Lenient(Kind::Trie)], |f| {
            let mut v = vec![];
            for at in 0..f.content.len() + 1 {
                for &chunk in &[1usize, 3, 64] {
                    v.push(Plan { fail_at: Some((at, libc::EIO)), chunk, once: at % 2 == 0, ..Plan::default() });
                    v.push(Plan { fail_at: Some((at, libc::EIO)), chunk, once: at % 2 == 1, ..Plan::default() });
                }
            }
            v
        }),
        run_plans("short-reads", "every chunk size from 1 to 80 and around powers of two", files.clone(), entries(), |_| {
            (1..81).chain([127, 128, 129, 255, 256, 257, 511, 512, 513].iter().cloned()).map(|chunk| Plan { chunk, ..Plan::default() }).collect()
        }),
        run_plans("call-patterns", "every sequence of answers to the first reads (short by 1, 2, 5, 31 bytes, full, interrupted)", files.clone(), vec![Entry::LoadFile, Entry::FromFile(Kind::Trie), Entry::Lenient(Kind::SuffixArray)], move |_| {
            let acts = [Act::Short(1), Act::Short(2), Act::Short(5), Act::Short(31), Act::Short(1 << 20), Act::Fail(libc::EINTR)];
            let mut v = vec![];
            for s in all_sequences(acts.len(), if quick { 4 } else { 5 }) {
                for &chunk in &[0usize, 16] {
                    v.push(Plan { first: s.iter().map(|&i| acts[i].clone()).collect(), chunk, ..Plan::default() });
                }
            }
            v
        }),
        run_plans("call-errors", "every sequence of answers to the first reads that ends in an error", files.clone(), vec![Entry::LoadFile, Entry::FromFile(Kind::SuffixArray), Entry::Lenient(Kind::Trie)], move |_| {
            let acts = [Act::Short(1), Act::Short(7), Act::Short(1 << 20), Act::Fail(libc::EINTR)];
            let mut v = vec![];
            for s in all_sequences(acts.len(), if quick { 4 } else { 6 }) {
                for &chunk in &[0usize, 16] {
                    let mut first: Vec<Act> = s.iter().map(|&i| acts[i].clone()).collect();
                    first.push(Act::Fail(libc::EIO));
                    v.push(Plan { first, chunk, ..Plan::default() });
                }
            }
            v
        }),
        run_plans("open-errors", "every error and up to 3 interruptions of open", files.clone(), entries(), |_| {
            let mut v = vec![];
            for e in [libc::EACCES, libc::ENOENT, libc::EMFILE, libc::ENFILE, libc::EIO, libc::ELOOP, libc::ENOMEM, libc::EPERM, libc::ENOTDIR, libc::EOVERFLOW, libc::ETXTBSY].iter() {
                for ints in 0..3 {
                    let mut open = vec![libc::EINTR; ints];
                    open.push(*e);
                    v.push(Plan { open, ..Plan::default() });
                }
            }
            for ints in 1..4 {
                v.push(Plan { open: vec![libc::EINTR; ints], first: vec![Act::Fail(libc::EINTR); ints], chunk: ints, ..Plan::default() });
            }
            v
        }),
        run_plans("big-errors", "a read error at every 61st byte and around every 1024th byte of big files", big.clone(), vec![Entry::LoadFile], |f| {
            (0..f.content.len() + 1).filter(|at| at % 61 == 0 || at % 1024 < 2 || at % 1024 == 1023 || *at + 2 > f.content.len()).map(|at| Plan { fail_at: Some((at, libc::EIO)), ..Plan::default() }).collect()
        }),
        run_plans("big-short", "chunk sizes on big files", big, vec![Entry::LoadFile, Entry::Lenient(Kind::Trie)], |_| {
            [1usize, 2, 3, 31, 32, 33, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193].iter().map(|&chunk| Plan { chunk, ..Plan::default() }).collect()
        }),
        file_sizes(if quick { 1 << 25 } else { 1 << 27 }),
        not_utf8(files.clone()),
        truncated(files),
        names(all_strings(&['j', 's', 'o', 'n', 'y', 'a', 'm', 'l', 'Y', 'A', 'M', 'L'], if quick { 3 } else { 4 }).into_iter().filter(|e| !e.is_empty()).map(|e| format!("f.{}", e)).collect(), "extensions", "every extension of the bound over the letters of the known ones"),
        names(odd_names(), "names", "odd names"),
        contents(),
        directories(),
        siblings(),
        paths(quick),
        special_names(quick),
        rewritten(quick),
        pipes(pipe_files),
    ];
    if quick {
        f.push(names(["json", "yaml", "YAML", "jsno", "yalm", "Json", "JSON", "jsom", "nosj", "Yaml", "yAML"].iter().map(|e| format!("f.{}", e)).collect(), "extensions-4", "four-letter extensions"));
    }
    Some(Check {
        property: p.to_owned(),
        families: f,
        rule: "two executions differ in the kind of outcome, whether an error was delivered, the number of interruptions and of reads".to_owned(),
        assumptions: vec![
            "the file system shows itself to the library through open and read; both are interposed in this process (an error counts only when it was really delivered)".to_owned(),
            "the file does not change while it is read".to_owned(),
        ],
    })
}

fn main() {
    engine::main(build)
}
