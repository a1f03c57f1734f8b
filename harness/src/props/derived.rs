//! C10: types with derived implementations, in the representations serde offers.

use crate::engine::{no_panic, Case, Fail, Res};
use crate::ensure;
use crate::props::mapping::of_json;
use crate::src::Src;
use serde::de::{DeserializeOwned, IntoDeserializer};
use serde::{Deserialize, Serialize};
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(rename_all = "kebab-case")]
struct Inner {
    first_name: String,
    count: Option<i64>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    tags: Vec<String>,
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Flat {
    id: u32,
    #[serde(flatten)]
    inner: Inner,
    #[serde(flatten)]
    rest: BTreeMap<String, Scalar>,
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
enum Scalar {
    Bool(bool),
    Int(i64),
    Float(f64),
    Text(String),
    List(Vec<Scalar>),
    Pair { left: Box<Scalar>, right: Box<Scalar> },
    Unit,
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "type", rename_all = "snake_case")]
enum Internal {
    Empty,
    Fields { x: Option<i8>, y: f32 },
    Inner(Inner),
    Map(BTreeMap<String, Scalar>),
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    Unit,
    One(i32),
    Two(u64, String),
    Fields { a: bool, b: Option<char> },
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
enum Color {
    Red,
    Green,
    #[serde(rename = "deep-blue")]
    Blue,
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
struct Name(String);

#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
#[serde(transparent)]
struct Clear {
    name: Name,
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
enum External {
    Unit,
    New(Box<External>),
    Tuple(u8, Name),
    Fields { inner: Inner, next: Option<Box<External>> },
    Opt(Option<Color>),
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Marker;

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Point(f64, f64, i16);

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Doc {
    scalar: Scalar,
    internal: Vec<Internal>,
    adjacent: BTreeMap<Name, Adjacent>,
    external: External,
    colors: BTreeMap<Color, Point>,
    set: BTreeSet<Color>,
    #[serde(default)]
    more: Option<Box<Doc>>,
    clear: BTreeMap<Clear, Option<Marker>>,
    pair: (i8, (u64, Marker), [u8; 2]),
    result: Result<Name, Color>,
    #[serde(rename = "type")]
    kind: Color,
    #[serde(with = "text")]
    hex: u32,
    #[serde(flatten)]
    flat: Flat,
}

/// A custom representation.
mod text {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &u32, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&format_args!("${{{v:x}}}"))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u32, D::Error> {
        let s = String::deserialize(d)?;
        let s = s.strip_prefix("${").and_then(|s| s.strip_suffix('}')).ok_or_else(|| serde::de::Error::custom(&s))?;
        u32::from_str_radix(s, 16).map_err(serde::de::Error::custom)
    }
}

fn string(s: &mut Src) -> String {
    crate::gen::text(s, 8)
}

fn inner(s: &mut Src) -> Inner {
    let mut tags = vec![];
    while s.more(tags.len(), 1, 4) {
        tags.push(string(s));
    }
    Inner { first_name: string(s), count: s.bool().then(|| int(s)), tags }
}

fn int(s: &mut Src) -> i64 {
    match s.below(3) {
        0 => s.below(100) as i64 - 50,
        1 => *s.pick(&[i64::MIN, i64::MAX, -1, 0]),
        _ => s.draw(0) as i64,
    }
}

fn float(s: &mut Src) -> f64 {
    // Not a number that reads as an integer.
    s.below(100_000) as f64 / 16.0 + 1.0 / 32.0
}

fn scalar(s: &mut Src, depth: usize) -> Scalar {
    match s.below(if depth == 0 { 5 } else { 7 }) {
        0 => Scalar::Bool(s.bool()),
        1 => Scalar::Int(int(s)),
        2 => Scalar::Float(float(s)),
        3 => Scalar::Text(string(s)),
        4 => Scalar::Unit,
        5 => {
            let mut l = vec![];
            while s.more(l.len(), 2, 4) {
                l.push(scalar(s, depth - 1));
            }
            Scalar::List(l)
        }
        _ => Scalar::Pair { left: Box::new(scalar(s, depth - 1)), right: Box::new(scalar(s, depth - 1)) },
    }
}

/// Keys that are no field of the types here; identifiers only where they become attributes.
fn rest(s: &mut Src, idents: bool) -> BTreeMap<String, Scalar> {
    let mut m = BTreeMap::new();
    while s.more(m.len(), 1, 3) {
        let k = if idents || s.bool() { s.pick(&["k", "null", "for", "k-1", "é", "left"]).to_string() } else { format!("{} ", string(s)) };
        m.insert(k, scalar(s, 2));
    }
    m
}

fn color(s: &mut Src) -> Color {
    *s.pick(&[Color::Red, Color::Green, Color::Blue])
}

fn internal(s: &mut Src) -> Internal {
    match s.below(4) {
        0 => Internal::Empty,
        1 => Internal::Fields { x: s.bool().then(|| s.draw(0) as i8), y: s.below(1000) as f32 / 8.0 },
        2 => Internal::Inner(inner(s)),
        _ => Internal::Map(rest(s, false)),
    }
}

fn adjacent(s: &mut Src) -> Adjacent {
    match s.below(4) {
        0 => Adjacent::Unit,
        1 => Adjacent::One(s.draw(0) as i32),
        2 => Adjacent::Two(s.draw(0), string(s)),
        _ => Adjacent::Fields { a: s.bool(), b: s.bool().then(|| crate::gen::ch(s)) },
    }
}

fn external(s: &mut Src, depth: usize) -> External {
    match s.below(if depth == 0 { 3 } else { 5 }) {
        0 => External::Unit,
        1 => External::Tuple(s.draw(0) as u8, Name(string(s))),
        2 => External::Opt(s.bool().then(|| color(s))),
        3 => External::New(Box::new(external(s, depth - 1))),
        _ => External::Fields { inner: inner(s), next: s.bool().then(|| Box::new(external(s, depth - 1))) },
    }
}

fn flat(s: &mut Src, idents: bool) -> Flat {
    Flat { id: s.draw(0) as u32, inner: inner(s), rest: rest(s, idents) }
}

fn doc(s: &mut Src, depth: usize, idents: bool) -> Doc {
    let mut list = vec![];
    while s.more(list.len(), 1, 3) {
        list.push(internal(s));
    }
    let mut names = BTreeMap::new();
    while s.more(names.len(), 1, 3) {
        names.insert(Name(string(s)), adjacent(s));
    }
    let mut colors = BTreeMap::new();
    while s.more(colors.len(), 1, 3) {
        colors.insert(color(s), Point(float(s), -float(s), s.draw(0) as i16));
    }
    let mut clear = BTreeMap::new();
    while s.more(clear.len(), 1, 3) {
        clear.insert(Clear { name: Name(string(s)) }, None);
    }
    let mut set = BTreeSet::new();
    while s.more(set.len(), 1, 3) {
        set.insert(color(s));
    }
    Doc {
        scalar: scalar(s, 3),
        internal: list,
        adjacent: names,
        external: external(s, 3),
        colors,
        set,
        more: (depth > 0 && s.chance(1, 3)).then(|| Box::new(doc(s, depth - 1, false))),
        clear,
        pair: (s.draw(0) as i8, (s.draw(0), Marker), [s.draw(0) as u8, 7]),
        result: if s.bool() { Ok(Name(string(s))) } else { Err(color(s)) },
        kind: color(s),
        hex: s.draw(0) as u32,
        flat: flat(s, idents),
    }
}

fn eq<T: Debug + PartialEq>(what: &str, got: Result<T, hcl::Error>, want: &T) -> Res {
    let got = got.map_err(|e| Fail::new(format!("error-{what}"), format!("{what}: {e}")))?;
    ensure!(got == *want, format!("differs-{what}"), "{what}: {got:?}\nwant {want:?}");
    Ok(())
}

fn check<T: Serialize + DeserializeOwned + Debug + PartialEq>(v: &T) -> Res {
    let text = no_panic(|| hcl::to_string(v)).map_err(|m| Fail::new("panic", m))?.map_err(|e| Fail::new("refused", format!("{e}")))?;
    let json = serde_json::to_value(v).map_err(|e| Fail::new("json", format!("{e}")))?;
    let more = |f: Fail| Fail::new(f.sig, format!("{}\n{text}", f.msg));
    eq("from_str", hcl::from_str(&text), v).map_err(more)?;
    eq("from_slice", hcl::from_slice(text.as_bytes()), v).map_err(more)?;
    let body = hcl::Body::from_serializable(v).map_err(|e| Fail::new("body", format!("{e}")))?;
    eq("from_body", hcl::from_body(body.clone()), v).map_err(more)?;
    eq("expression-of-body", T::deserialize(hcl::Expression::from(body).into_deserializer()), v).map_err(more)?;
    let val = hcl::to_value(v).map_err(|e| Fail::new("refused", format!("to_value: {e}")))?;
    eq("from_value", hcl::from_value(val.clone()), v).map_err(more)?;
    let e = hcl::to_expression(v).map_err(|e| Fail::new("refused", format!("to_expression: {e}")))?;
    eq("expression", T::deserialize(e.clone().into_deserializer()), v).map_err(more)?;
    for (what, j) in [
        ("text", serde_json::to_value(hcl::from_str::<hcl::Value>(&text).map_err(|e| Fail::new("value", format!("{e}")))?)),
        ("to_value", serde_json::to_value(val)),
        ("to_expression", serde_json::to_value(hcl::Value::from(e))),
        ("json", Ok(hcl::from_str::<J>(&text).map_err(|e| Fail::new("json", format!("{e}")))?)),
    ] {
        let j = j.map_err(|e| Fail::new("json", format!("{e}")))?;
        ensure!(of_json(&j) == of_json(&json), format!("data-{what}"), "{what}: {j}\nis not {json}");
    }
    Ok(())
}

pub fn c10_derived(s: &mut Src, c: &mut Case) -> Res {
    match s.below(6) {
        0 => {
            let v = flat(s, true);
            c.label("flatten");
            c.input = format!("{v:?}");
            c.nontrivial = !v.rest.is_empty();
            check(&v)
        }
        1 => {
            let mut m = HashMap::new();
            while s.more(m.len(), 2, 5) {
                m.insert(s.pick(&["a", "b", "c", "d-e", "null"]).to_string(), (scalar(s, 3), internal(s)));
            }
            c.label("map");
            c.input = format!("{m:?}");
            c.nontrivial = m.len() > 1;
            check(&m)
        }
        2 => {
            let mut v = external(s, 3);
            // A document is no string.
            if v == External::Unit {
                v = External::New(Box::new(v));
            }
            c.label("external");
            c.input = format!("{v:?}");
            c.nontrivial = c.input.len() > 40;
            check(&v)
        }
        3 => {
            let v = match internal(s) {
                Internal::Map(_) => Internal::Map(rest(s, true)),
                v => v,
            };
            c.label("internal");
            c.input = format!("{v:?}");
            c.nontrivial = c.input.len() > 40;
            check(&v)
        }
        4 => {
            let v = adjacent(s);
            c.label("adjacent");
            c.input = format!("{v:?}");
            c.nontrivial = c.input.len() > 20;
            check(&v)
        }
        _ => {
            let v = doc(s, 2, true);
            c.label("document");
            c.input = format!("{v:?}");
            c.nontrivial = true;
            check(&v)
        }
    }
}
