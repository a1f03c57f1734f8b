//! C24: runs the macro invocations that tools/macros.py has written.
#![allow(unused, clippy::all)]

use hcl::expr::{FuncCall, Object, ObjectKey, Traversal, TraversalOperator, Variable};
use hcl::structure::{Attribute, Block, BlockLabel, Body, Structure};
use hcl::{Expression as X, Identifier, Map, Number, Value as W};

/// What the invocations take from their surroundings.
#[derive(Clone, Debug)]
pub struct Env {
    vs: String,
    vk: String,
    vi: i64,
    vu: u64,
    vf: f64,
    vb: bool,
    vc: char,
    vo: Option<i64>,
    vl: Vec<i64>,
    vw: W,
    ve: X,
    id: Identifier,
    // Names the macros use themselves.
    object: i64,
    elems: String,
    key: String,
}

fn next(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

fn pick<T: Clone>(x: &mut u64, l: &[T]) -> T {
    l[(next(x) % l.len() as u64) as usize].clone()
}

const TEXTS: [&str; 10] = ["hello", "", "a b", "${x}", "é\n", "\"", "null", "true", "1", "a"];
const NAMES: [&str; 8] = ["name", "a", "foo_bar", "for", "null", "é", "a-b", "b"];

fn value(r: &mut u64, depth: u32) -> W {
    match next(r) % if depth > 0 { 7 } else { 5 } {
        0 => W::Null,
        1 => W::Bool(next(r) % 2 == 0),
        2 => W::Number(Number::from(pick(r, &[0i64, 1, -5, i64::MAX]))),
        3 => W::Number(Number::from_f64(pick(r, &[0.5f64, -1e10, 3.0])).unwrap()),
        4 => W::String(pick(r, &TEXTS).to_string()),
        5 => W::Array((0..next(r) % 3).map(|_| value(r, depth - 1)).collect()),
        _ => W::Object((0..next(r) % 3).map(|_| (pick(r, &TEXTS).to_string(), value(r, depth - 1))).collect()),
    }
}

fn expr(r: &mut u64, depth: u32) -> X {
    let name = |r: &mut u64| Identifier::unchecked(pick(r, &["a", "foo", "x1"]));
    match next(r) % if depth > 0 { 6 } else { 3 } {
        0 => X::from(value(r, 1)),
        1 => X::Variable(Variable::from(name(r))),
        2 => X::String(pick(r, &TEXTS).to_string()),
        3 => X::Parenthesis(Box::new(expr(r, depth - 1))),
        4 => X::FuncCall(Box::new(FuncCall::builder(name(r)).arg(expr(r, depth - 1)).build())),
        _ => X::Traversal(Box::new(Traversal::new(X::Variable(Variable::from(name(r))), vec![TraversalOperator::GetAttr(name(r)), TraversalOperator::Index(X::from(1u64))]))),
    }
}

fn env(round: u64) -> Env {
    let mut r = round.wrapping_mul(0x1234_5678_9abc_def1);
    let r = &mut r;
    Env {
        vs: pick(r, &TEXTS).to_string(),
        vk: pick(r, &NAMES).to_string(),
        vi: pick(r, &[0, 1, -1, 42, i64::MAX - 2, i64::MIN + 2]),
        vu: pick(r, &[0, 7, u64::MAX - 2]),
        vf: pick(r, &[0.5, -2.25, 1e100, 3.0]),
        vb: next(r) % 2 == 0,
        vc: pick(r, &['a', 'é', '"', '\n']),
        vo: pick(r, &[None, Some(3)]),
        vl: (0..next(r) % 4).map(|i| i as i64 * 10).collect(),
        vw: value(r, 2),
        ve: expr(r, 2),
        id: Identifier::unchecked(pick(r, &NAMES)),
        object: pick(r, &[5, 6]),
        elems: pick(r, &TEXTS).to_string(),
        key: pick(r, &NAMES).to_string(),
    }
}

// Direct construction.

fn ni(i: i64) -> X {
    X::Number(Number::from(i))
}
fn nu(i: u64) -> X {
    X::Number(Number::from(i))
}
fn nf(f: f64) -> X {
    X::Number(Number::from_f64(f).unwrap())
}
fn st(s: &str) -> X {
    X::String(String::from(s))
}
fn obj(l: Vec<(ObjectKey, X)>) -> X {
    let mut o: Vec<(ObjectKey, X)> = Vec::new();
    for (k, v) in l {
        match o.iter_mut().find(|(x, _)| *x == k) {
            Some(e) => e.1 = v,
            None => o.push((k, v)),
        }
    }
    X::Object(o.into_iter().collect())
}
fn wobj(l: Vec<(String, W)>) -> W {
    let mut o: Vec<(String, W)> = Vec::new();
    for (k, v) in l {
        match o.iter_mut().find(|(x, _)| *x == k) {
            Some(e) => e.1 = v,
            None => o.push((k, v)),
        }
    }
    W::Object(o.into_iter().collect())
}
fn ki(s: &str) -> ObjectKey {
    ObjectKey::Identifier(Identifier::unchecked(s))
}
fn li(s: &str) -> BlockLabel {
    BlockLabel::Identifier(Identifier::unchecked(s))
}
fn ls(s: &str) -> BlockLabel {
    BlockLabel::String(String::from(s))
}
fn at(k: &str, e: X) -> Attribute {
    Attribute { key: Identifier::unchecked(k), expr: e }
}
fn bl(k: &str, labels: Vec<BlockLabel>, s: Vec<Structure>) -> Block {
    Block { identifier: Identifier::unchecked(k), labels, body: Body(s) }
}

/// The same data with the members of objects in order, by their debug form.
fn same<T: std::fmt::Debug + PartialEq>(a: &T, b: &T) -> Option<String> {
    let (x, y) = (format!("{a:?}"), format!("{b:?}"));
    (x != y || a != b).then(|| format!("{x}\nwant {y}"))
}

pub struct Site {
    pub id: usize,
    pub run: fn(&Env) -> Option<String>,
    pub text: Option<&'static str>,
    pub holes: bool,
    /// The macro's result as document, where it has one without holes.
    pub parsed: Option<fn(&str) -> Option<String>>,
}

include!(env!("HV_MACROS"));

fn main() {
    let rounds: u64 = std::env::args().nth(1).and_then(|a| a.parse().ok()).unwrap_or(50);
    std::panic::set_hook(Box::new(|_| {}));
    let mut total = 0u64;
    for s in sites() {
        let n = if s.holes { rounds } else { 1 };
        for round in 0..n {
            total += 1;
            let e = env(round + s.id as u64 * 7919);
            let r = std::panic::catch_unwind(|| (s.run)(&e)).unwrap_or_else(|_| Some("panic".into()));
            let r = r.or_else(|| match (s.text, s.parsed) {
                (Some(t), Some(f)) => f(t).map(|m| format!("differs from the document: {m}")),
                _ => None,
            });
            if let Some(m) = r {
                println!("FAIL {} {}\n{m}\nwith {e:?}\nEND", s.id, round);
                break;
            }
        }
    }
    println!("TOTAL {total}");
}
