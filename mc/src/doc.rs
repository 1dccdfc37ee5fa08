//! Documents: a value tree, its JSON and YAML spellings, and what it means as a pattern file.

use crate::gram::{recognise, Item, Limit};
use crate::model::{Tok, Tokens};
use crate::strings::json_str;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Num(i64),
    Float(&'static str),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}

pub fn s(x: &str) -> V {
    V::Str(x.to_owned())
}
pub fn arr(v: &[V]) -> V {
    V::Arr(v.to_vec())
}
pub fn obj(v: &[(&str, V)]) -> V {
    V::Obj(v.iter().map(|x| (x.0.to_owned(), x.1.clone())).collect())
}
pub fn strs(v: &[&str]) -> V {
    V::Arr(v.iter().map(|x| s(x)).collect())
}

impl V {
    pub fn has_real(&self) -> bool {
        match *self {
            V::Float(_) => true,
            V::Arr(ref a) => a.iter().any(|x| x.has_real()),
            V::Obj(ref o) => o.iter().any(|x| x.1.has_real()),
            _ => false,
        }
    }
    pub fn reals_as_text(&self) -> V {
        match *self {
            V::Float(f) => s(f),
            V::Arr(ref a) => V::Arr(a.iter().map(|x| x.reals_as_text()).collect()),
            V::Obj(ref o) => V::Obj(o.iter().map(|x| (x.0.clone(), x.1.reals_as_text())).collect()),
            ref x => x.clone(),
        }
    }
    fn scalar(&self) -> Option<String> {
        match *self {
            V::Null => Some("null".to_owned()),
            V::Bool(b) => Some(b.to_string()),
            V::Num(n) => Some(n.to_string()),
            V::Float(f) => Some(f.to_owned()),
            V::Str(ref x) => Some(json_str(x)),
            _ => None,
        }
    }
    pub fn json(&self) -> String {
        match *self {
            V::Arr(ref a) => format!("[{}]", a.iter().map(|x| x.json()).collect::<Vec<_>>().join(",")),
            V::Obj(ref o) => format!("{{{}}}", o.iter().map(|x| format!("{}:{}", json_str(&x.0), x.1.json())).collect::<Vec<_>>().join(",")),
            ref x => x.scalar().unwrap(),
        }
    }
    /// spread over lines, with blanks
    pub fn json_pretty(&self, ind: usize) -> String {
        let pad = " ".repeat(ind + 2);
        let end = " ".repeat(ind);
        match *self {
            V::Arr(ref a) if !a.is_empty() => format!("[\n{}\n{}]", a.iter().map(|x| format!("{}{}", pad, x.json_pretty(ind + 2))).collect::<Vec<_>>().join(",\n"), end),
            V::Obj(ref o) if !o.is_empty() => format!("{{\n{}\n{}}}", o.iter().map(|x| format!("{}{} : {}", pad, json_str(&x.0), x.1.json_pretty(ind + 2))).collect::<Vec<_>>().join(",\n"), end),
            ref x => x.json(),
        }
    }
    pub fn yaml_flow(&self) -> String {
        match *self {
            V::Arr(ref a) => format!("[{}]", a.iter().map(|x| x.yaml_flow()).collect::<Vec<_>>().join(", ")),
            V::Obj(ref o) => format!("{{{}}}", o.iter().map(|x| format!("{}: {}", json_str(&x.0), x.1.yaml_flow())).collect::<Vec<_>>().join(", ")),
            ref x => x.scalar().unwrap(),
        }
    }
    /// block style; plain keys and plain scalars where `plain` and the text allows it
    pub fn yaml_block(&self, ind: usize, plain: bool) -> String {
        fn word(x: &str) -> bool {
            x.len() > 2 && x.bytes().all(|b| b.is_ascii_lowercase() || b == b'_') && !["true", "false", "null", "yes", "off"].contains(&x)
        }
        let pad = " ".repeat(ind);
        let text = |x: &str| if plain && word(x) { x.to_owned() } else if plain && !x.chars().any(|c| (c as u32) < 0x20 && c != '\t') && !x.contains('\\') && !x.is_empty() { format!("'{}'", x.replace('\'', "''")) } else { json_str(x) };
        let put = |v: &V| match *v {
            V::Arr(ref a) if !a.is_empty() => format!("\n{}", v.yaml_block(ind + 2, plain)),
            V::Obj(ref o) if !o.is_empty() => format!("\n{}", v.yaml_block(ind + 2, plain)),
            V::Str(ref x) => format!(" {}", text(x)),
            ref x => format!(" {}", x.yaml_flow()),
        };
        match *self {
            V::Arr(ref a) if !a.is_empty() => a.iter().map(|x| match *x {
                V::Obj(ref o) if !o.is_empty() => {
                    // "- key: value" on one line
                    let b = x.yaml_block(ind + 2, plain);
                    format!("{}- {}", pad, &b[ind + 2..])
                }
                ref x => format!("{}-{}", pad, put(x)),
            }).collect::<Vec<_>>().join("\n"),
            V::Obj(ref o) if !o.is_empty() => o.iter().map(|x| format!("{}{}:{}", pad, text(&x.0), put(&x.1))).collect::<Vec<_>>().join("\n"),
            V::Str(ref x) => text(x),
            ref x => x.yaml_flow(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct TestMsg {
    pub message: String,
    pub values: BTreeMap<String, String>,
    pub tags: Option<Vec<String>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Def {
    pub name: Option<String>,
    pub uuid: String,
    pub tokens: Tokens,
    pub values: Option<BTreeMap<String, String>>,
    pub tags: Option<Vec<String>>,
    pub tests: Option<Vec<TestMsg>>,
}

/// Why a document is not accepted; `Missing` only when it is the single defect.
#[derive(Clone, Debug, PartialEq)]
pub enum Refuse {
    Missing(&'static str),
    Other,
}

pub fn tokens(items: &[Item]) -> Tokens {
    fn lims(p: &Option<Vec<(Limit, usize)>>) -> (Option<usize>, Option<usize>) {
        let (mut min, mut max) = (None, None);
        for &(l, v) in p.as_ref().map_or(&[][..], |v| &v[..]) {
            match l { Limit::Min => min = Some(v), Limit::Max => max = Some(v) }
        }
        (min, max)
    }
    items.iter().map(|i| match *i {
        Item::Lit(ref l) => Tok::Lit(l.clone()),
        Item::Set { ref set, ref params, ref name } => { let (min, max) = lims(params); Tok::Set { set: set.clone(), name: name.clone(), min, max } }
        Item::Int { ref params, ref name } => { let (min, max) = lims(params); Tok::Int { name: name.clone(), min, max } }
        Item::Greedy { ref name, ref end } => Tok::Greedy { name: name.clone(), end: end.clone() },
    }).collect()
}

fn text(v: &V) -> Result<String, Refuse> {
    match *v { V::Str(ref x) => Ok(x.clone()), _ => Err(Refuse::Other) }
}
fn texts(v: &V) -> Result<Vec<String>, Refuse> {
    match *v { V::Arr(ref a) => a.iter().map(text).collect(), _ => Err(Refuse::Other) }
}
fn map(v: &V) -> Result<BTreeMap<String, String>, Refuse> {
    match *v { V::Obj(ref o) => o.iter().map(|x| Ok((x.0.clone(), text(&x.1)?))).collect(), _ => Err(Refuse::Other) }
}
/// 32 hex digits, plain or hyphenated 8-4-4-4-12; normalised to plain lower case.
fn uuid(v: &V) -> Result<String, Refuse> {
    let t = text(v)?;
    let groups: Vec<&str> = t.split('-').collect();
    let lens: Vec<usize> = groups.iter().map(|g| g.len()).collect();
    let ok = (lens == [8, 4, 4, 4, 12] || lens == [32]) && groups.iter().all(|g| g.bytes().all(|b| b.is_ascii_hexdigit()));
    if ok { Ok(groups.concat().to_lowercase()) } else { Err(Refuse::Other) }
}

fn fields<'a>(v: &'a V, known: &[&str]) -> Result<BTreeMap<&'a str, &'a V>, Refuse> {
    match *v {
        V::Obj(ref o) => {
            if o.iter().any(|x| !known.contains(&&x.0[..])) {
                return Err(Refuse::Other);
            }
            Ok(o.iter().map(|x| (&x.0[..], &x.1)).collect())
        }
        _ => Err(Refuse::Other),
    }
}

fn list<T>(v: &V, f: &dyn Fn(&V) -> Result<T, Refuse>) -> Result<Vec<T>, Refuse> {
    match *v {
        V::Arr(ref a) => {
            let mut out = vec![];
            let mut bad: Vec<Refuse> = vec![];
            for x in a {
                match f(x) {
                    Ok(t) => out.push(t),
                    Err(e) => bad.push(e),
                }
            }
            match bad.len() {
                0 => Ok(out),
                1 => Err(bad.pop().unwrap()),
                _ => Err(Refuse::Other),
            }
        }
        _ => Err(Refuse::Other),
    }
}

pub fn test_msg(v: &V) -> Result<TestMsg, Refuse> {
    let f = fields(v, &["message", "values", "tags"])?;
    let values = f.get("values").map_or(Ok(BTreeMap::new()), |v| map(v))?;
    let tags = f.get("tags").map_or(Ok(None), |v| texts(v).map(Some))?;
    let message = text(f.get("message").ok_or(Refuse::Missing("message"))?)?;
    Ok(TestMsg { message, values, tags })
}

pub fn def(v: &V) -> Result<Def, Refuse> {
    let f = fields(v, &["name", "uuid", "pattern", "values", "tags", "test_messages"])?;
    let mut bad: Vec<Refuse> = vec![];
    let name = f.get("name").map_or(Ok(None), |v| text(v).map(Some)).unwrap_or_else(|e| { bad.push(e); None });
    let values = f.get("values").map_or(Ok(None), |v| map(v).map(Some)).unwrap_or_else(|e| { bad.push(e); None });
    let tags = f.get("tags").map_or(Ok(None), |v| texts(v).map(Some)).unwrap_or_else(|e| { bad.push(e); None });
    let tests = f.get("test_messages").map_or(Ok(None), |v| list(v, &test_msg).map(Some)).unwrap_or_else(|e| { bad.push(e); None });
    let uuid = match f.get("uuid") { None => Err(Refuse::Missing("uuid")), Some(v) => uuid(v) }.unwrap_or_else(|e| { bad.push(e); String::new() });
    let tokens = match f.get("pattern") {
        None => Err(Refuse::Missing("pattern")),
        Some(v) => text(v).and_then(|t| recognise(&t).map_err(|_| Refuse::Other)).map(|i| tokens(&i)),
    }.unwrap_or_else(|e| { bad.push(e); vec![] });
    match bad.len() {
        0 => Ok(Def { name, uuid, tokens, values, tags, tests }),
        1 => Err(bad.pop().unwrap()),
        _ => Err(Refuse::Other),
    }
}

pub fn file(v: &V) -> Result<Vec<Def>, Refuse> {
    let f = fields(v, &["patterns"])?;
    list(f.get("patterns").ok_or(Refuse::Missing("patterns"))?, &def)
}

/// Reading a text with the JSON library alone; None: not JSON; Some(None): has a null, which the format does not speak of.
pub fn read_json(text: &str) -> Option<Option<V>> {
    use serde_json::Value as J;
    fn conv(j: &J) -> Option<V> {
        Some(match *j {
            J::Null => return None,
            J::Bool(b) => V::Bool(b),
            J::I64(_) | J::U64(_) => V::Num(1),
            J::F64(_) => V::Float("1.5"),
            J::String(ref s) => V::Str(s.clone()),
            J::Array(ref a) => V::Arr(a.iter().map(conv).collect::<Option<Vec<_>>>()?),
            J::Object(ref o) => V::Obj(o.iter().map(|x| Some((x.0.clone(), conv(x.1)?))).collect::<Option<Vec<_>>>()?),
        })
    }
    serde_json::from_str::<J>(text).ok().map(|j| conv(&j))
}

/// The same for YAML; `real_as_text`: a real number counts as the text it is written with.
pub fn read_yaml(text: &str, real_as_text: bool) -> Option<Option<V>> {
    use yaml_rust::{Yaml as Y, YamlLoader};
    fn conv(y: &Y, real: bool) -> Option<V> {
        Some(match *y {
            Y::Null => return None,
            Y::Boolean(b) => V::Bool(b),
            Y::Integer(_) => V::Num(1),
            Y::Real(ref s) if real => V::Str(s.clone()),
            Y::Real(_) => V::Float("1.5"),
            Y::String(ref s) => V::Str(s.clone()),
            Y::Array(ref a) => V::Arr(a.iter().map(|x| conv(x, real)).collect::<Option<Vec<_>>>()?),
            Y::Hash(ref o) => {
                let mut v = vec![];
                let mut odd = false;
                for (k, x) in o {
                    match conv(k, real)? {
                        V::Str(k) => v.push((k, conv(x, real)?)),
                        _ => odd = true,
                    }
                }
                // keys are texts; with any other key this is not one of our mappings
                if odd { V::Bool(false) } else { V::Obj(v) }
            }
            Y::Alias(_) | Y::BadValue => V::Bool(false),
        })
    }
    match YamlLoader::load_from_str(text) {
        Ok(ref d) if d.len() == 1 => Some(conv(&d[0], real_as_text)),
        _ => None,
    }
}
