//! C18: reading a document as plain data.

use crate::dyns::{self, De, Dv, Sh};
use crate::engine::{no_panic, Case, Fail, Prop, Res, Test};
use crate::gen::Gen;
use crate::model::*;
use crate::props::built::{join, map_elements, map_texpr_meaning};
use crate::props::parse::labels_body;
use crate::props::t;
use crate::refeval::V;
use crate::src::Src;
use crate::{ensure, fail, reify, render};
use serde::de::{DeserializeSeed, IntoDeserializer};
use serde_json::Value as J;

pub fn add(p: &mut Vec<Prop>, ts: &mut Vec<Test>) {
    p.push(Prop { id: "C18", rule: "a document of at least two structures of which one is a block or holds an expression that is not a literal" });
    ts.push(t("C18", "document", 60_000, 600_000, c18_document));
    ts.push(t("C18", "typed", 40_000, 400_000, c18_typed));
}

// --- The mapping ----------------------------------------------------------------------------------

/// What the specification says a document is as data.
enum Node<'a> {
    Expr(&'a E),
    Labels(Vec<(String, Node<'a>)>),
    Bodies(Vec<&'a [S]>),
    /// One name for different kinds of things, which no schema admits.
    Conflict,
}

fn add_node<'a>(m: &mut Vec<(String, Node<'a>)>, key: &str, labels: &'a [L], leaf: Node<'a>) {
    let node = match labels {
        [] => leaf,
        [l, rest @ ..] => {
            let inner = match m.iter_mut().find(|(k, _)| k == key) {
                Some((_, Node::Labels(x))) => x,
                Some((_, n)) => {
                    *n = Node::Conflict;
                    return;
                }
                None => {
                    m.push((key.to_string(), Node::Labels(Vec::new())));
                    match m.last_mut() {
                        Some((_, Node::Labels(x))) => x,
                        _ => unreachable!(),
                    }
                }
            };
            return add_node(inner, l.text(), rest, leaf);
        }
    };
    match m.iter_mut().find(|(k, _)| k == key) {
        None => m.push((key.to_string(), node)),
        Some((_, Node::Bodies(l))) => match node {
            Node::Bodies(x) => l.extend(x),
            _ => {
                m.iter_mut().find(|(k, _)| k == key).unwrap().1 = Node::Conflict;
            }
        },
        Some((_, n)) => *n = Node::Conflict,
    }
}

fn nodes(b: &[S]) -> Vec<(String, Node<'_>)> {
    let mut m = Vec::new();
    for s in b {
        match s {
            S::Attr(k, e) => add_node(&mut m, k, &[], Node::Expr(e)),
            S::Block(b) => add_node(&mut m, &b.ident, &b.labels, Node::Bodies(vec![&b.body])),
        }
    }
    m
}

fn template(text: &str) -> Option<Vec<T>> {
    let t: hcl::Template = text.parse().ok()?;
    Some(join(&map_elements(&reify::d_template(&t).ok()?)))
}

/// Whether the text is a template that consists of this expression only.
fn interpolates(text: &str, e: &E) -> bool {
    match template(text) {
        Some(ts) => match &ts[..] {
            [T::Interp(x, (false, false))] => quoted_keys(&norm(x)) == quoted_keys(&norm(&meaning(e))),
            _ => false,
        },
        None => false,
    }
}

fn is_template(text: &str, ts: &[T]) -> bool {
    template(text).is_some_and(|x| quoted_keys_tpl(x) == quoted_keys_tpl(join(&norm_tpl(&map_texpr_meaning(ts)))))
}

fn bare(e: &E) -> &E {
    match e {
        E::Paren(e) => bare(e),
        e => e,
    }
}

/// Object keys without text.
fn bad_key(e: &E) -> bool {
    let mut bad = false;
    value_walk(e, &mut |e| {
        if let E::Obj(o) = e {
            bad |= o.iter().any(|(k, _)| matches!(k, K::Ex(x) if matches!(bare(x), E::Null | E::Arr(_) | E::Obj(_))));
        }
    });
    bad
}

/// The expressions that are data themselves.
fn value_walk<'a>(e: &'a E, f: &mut dyn FnMut(&'a E)) {
    f(e);
    match e {
        E::Paren(e) => value_walk(e, f),
        E::Arr(l) => l.iter().for_each(|e| value_walk(e, f)),
        E::Obj(o) => o.iter().for_each(|(_, e)| value_walk(e, f)),
        _ => {}
    }
}

fn same_key(k: &K, text: &str) -> bool {
    match k {
        K::Id(s) => s == text,
        K::Ex(e) => match bare(e) {
            E::Str(s) => s == text,
            E::Bool(b) => text == b.to_string(),
            E::Num(n) => number_text(n, text),
            E::Tpl(ts) => is_template(text, ts),
            E::Heredoc(_) => heredoc(e, text),
            E::Null | E::Arr(_) | E::Obj(_) => false,
            e => interpolates(text, e),
        },
    }
}

fn number_text(n: &N, text: &str) -> bool {
    match n {
        N::U(u) => text.parse() == Ok(*u),
        N::I(i) => text.parse() == Ok(*i),
        N::F(f) => text.parse() == Ok(*f),
    }
}

fn heredoc(e: &E, text: &str) -> bool {
    match meaning(bare(e)) {
        E::Heredoc(h) => template(text).is_some_and(|x| x == join(&norm_tpl(&h.tpl))),
        _ => false,
    }
}

fn check_expr(e: &E, v: &V, at: &str) -> Result<(), String> {
    let bad = || Err(format!("{at}: {v:?} for {e:?}"));
    match (bare(e), v) {
        (E::Null, V::Null) => Ok(()),
        (E::Bool(a), V::Bool(b)) if a == b => Ok(()),
        (E::Num(a), V::Num(b)) if a == b => Ok(()),
        (E::Str(a), V::Str(b)) if a == b => Ok(()),
        (E::Arr(a), V::Arr(b)) if a.len() == b.len() => a.iter().zip(b).enumerate().try_for_each(|(i, (a, b))| check_expr(a, b, &format!("{at}[{i}]"))),
        (E::Obj(a), V::Obj(b)) => {
            // Later entries replace earlier ones of the same name.
            let mut last: Vec<Option<&E>> = vec![None; b.len()];
            let mut seen = 0;
            for (k, e) in a {
                let Some(i) = b.iter().position(|(t, _)| same_key(k, t)) else { return Err(format!("{at}: no {k:?} in {v:?}")) };
                if i > seen {
                    return Err(format!("{at}: {k:?} out of order in {v:?}"));
                }
                if i == seen {
                    seen += 1;
                }
                last[i] = Some(e);
            }
            if seen != b.len() {
                return Err(format!("{at}: {:?} comes from nowhere", b[seen]));
            }
            b.iter().zip(last).try_for_each(|((k, v), e)| check_expr(e.unwrap(), v, &format!("{at}.{k}")))
        }
        (E::Null | E::Bool(_) | E::Num(_) | E::Str(_) | E::Arr(_) | E::Obj(_), _) => bad(),
        (E::Tpl(ts), V::Str(t)) => {
            if is_template(t, ts) {
                Ok(())
            } else {
                bad()
            }
        }
        (E::Heredoc(_), V::Str(t)) => {
            if heredoc(e, t) {
                Ok(())
            } else {
                bad()
            }
        }
        (x, V::Str(t)) if interpolates(t, x) => Ok(()),
        _ => bad(),
    }
}

fn check_nodes(m: &[(String, Node)], v: &V, at: &str, c: &mut Case) -> Result<(), String> {
    let V::Obj(o) = v else { return Err(format!("{at}: {v:?} is no object")) };
    let (want, got): (Vec<&String>, Vec<&String>) = (m.iter().map(|(k, _)| k).collect(), o.iter().map(|(k, _)| k).collect());
    if want != got {
        return Err(format!("{at}: has {got:?} instead of {want:?}"));
    }
    for ((k, n), (_, v)) in m.iter().zip(o) {
        let at = format!("{at}.{k}");
        match n {
            Node::Expr(e) => check_expr(e, v, &at)?,
            Node::Labels(m) => {
                c.label("labels");
                check_nodes(m, v, &at, c)?;
            }
            Node::Bodies(l) => {
                c.label("block");
                if let [b] = &l[..] {
                    check_nodes(&nodes(b), v, &at, c)?;
                } else {
                    c.label("repeated");
                    let V::Arr(a) = v else { return Err(format!("{at}: {v:?} is no list")) };
                    if a.len() != l.len() {
                        return Err(format!("{at}: {} of {} blocks", a.len(), l.len()));
                    }
                    for (i, (b, v)) in l.iter().zip(a).enumerate() {
                        check_nodes(&nodes(b), v, &format!("{at}[{i}]"), c)?;
                    }
                }
            }
            Node::Conflict => c.label("conflict"),
        }
    }
    Ok(())
}

// --- Documents ------------------------------------------------------------------------------------

const BLOCKS: [&str; 4] = ["blk", "b2", "é", "resource"];
const LABELS: [&str; 5] = ["x", "y z", "blk", "", "${q}"];

/// Makes blocks repeat and, unless there shall be conflicts, agree on their number of labels.
fn regroup(s: &mut Src, b: &[S], conflicts: bool) -> Vec<S> {
    let counts: Vec<usize> = BLOCKS.iter().map(|_| s.below(3)).collect();
    let mut out = Vec::new();
    for st in b {
        match st {
            S::Attr(k, e) => {
                if conflicts || !BLOCKS.contains(&&k[..]) {
                    out.push(S::Attr(k.clone(), e.clone()));
                }
            }
            S::Block(b) => {
                let i = if s.chance(1, 2) { 0 } else { s.below(BLOCKS.len()) };
                let mut b = b.clone();
                if !conflicts || s.bool() {
                    b.ident = BLOCKS[i].to_string();
                }
                let n = if conflicts { s.below(3) } else { counts[i] };
                b.labels.truncate(n);
                while b.labels.len() < n {
                    b.labels.push(if s.bool() { L::Id("x".into()) } else { L::Str(s.pick(&LABELS).to_string()) });
                }
                for l in &mut b.labels {
                    if s.bool() {
                        *l = L::Str(s.pick(&LABELS).to_string());
                    }
                }
                b.body = regroup(s, &b.body, conflicts);
                out.push(S::Block(b));
            }
        }
    }
    out
}

fn conflict_free(b: &[S]) -> bool {
    fn free(m: &[(String, Node)]) -> bool {
        m.iter().all(|(_, n)| match n {
            Node::Expr(_) => true,
            Node::Labels(m) => free(m),
            Node::Bodies(l) => l.iter().all(|b| free(&nodes(b))),
            Node::Conflict => false,
        })
    }
    free(&nodes(b))
}

pub fn document(s: &mut Src, c: &mut Case) -> (Vec<S>, String) {
    let mut b = Gen::new(s).body(3);
    if s.chance(1, 2) {
        // More blocks.
        let n = s.range(1, 4);
        for _ in 0..n {
            let mut g = Gen::new(s);
            g.fuel = 6;
            b.push(S::Block(g.block(2)));
        }
    }
    let conflicts = s.chance(1, 8);
    let b = regroup(s, &b, conflicts);
    let d = render::render_body(s, &b, false);
    labels_body(c, &b);
    c.nontrivial = b.len() >= 2 && b.iter().any(|s| matches!(s, S::Block(_)) || matches!(s, S::Attr(_, e) if !literal(e)));
    c.input = d.text.clone();
    (b, d.text)
}

fn literal(e: &E) -> bool {
    match e {
        E::Null | E::Bool(_) | E::Num(_) | E::Str(_) => true,
        E::Arr(l) => l.iter().all(literal),
        E::Obj(o) => o.iter().all(|(_, e)| literal(e)),
        _ => false,
    }
}

pub fn body_bad_key(b: &[S]) -> bool {
    b.iter().any(|s| match s {
        S::Attr(_, e) => bad_key(e),
        S::Block(b) => body_bad_key(&b.body),
    })
}

pub fn of_json(j: &J) -> V {
    match j {
        J::Null => V::Null,
        J::Bool(b) => V::Bool(*b),
        J::Number(n) => V::Num(match (n.as_u64(), n.as_i64(), n.as_f64()) {
            (Some(u), _, _) => N::U(u),
            (_, Some(i), _) => N::I(i),
            (_, _, Some(f)) => N::f(f),
            _ => N::U(0),
        }),
        J::String(s) => V::Str(s.clone()),
        J::Array(a) => V::Arr(a.iter().map(of_json).collect()),
        J::Object(o) => V::Obj(o.iter().map(|(k, v)| (k.clone(), of_json(v))).collect()),
    }
}

fn c18_document(s: &mut Src, c: &mut Case) -> Res {
    let (b, text) = document(s, c);
    let got = no_panic(|| hcl::from_str::<hcl::Value>(&text)).map_err(|m| Fail::new("panic", m))?;
    if body_bad_key(&b) {
        // Hidden by a later definition at most.
        c.label("bad-key");
        ensure!(got.is_err() || !conflict_free(&b) || duplicate_keys(&b), "bad-key", "read as {got:?}");
        return Ok(());
    }
    let value = got.map_err(|e| Fail::new("error", format!("{e}")))?;
    let v = V::of(&value);
    check_nodes(&nodes(&b), &v, "", c).map_err(|m| Fail::new("mapping", format!("{m}\nread {value:?}")))?;
    // All ways to read it.
    let body: hcl::Body = text.parse().map_err(|e| Fail::new("error", format!("{e}")))?;
    let all: [(&str, hcl::Result<hcl::Value>); 6] = [
        ("from_body", hcl::from_body(body.clone())),
        ("from_slice", hcl::from_slice(text.as_bytes())),
        ("from_reader", hcl::from_reader(text.as_bytes())),
        ("from_value", hcl::from_value(value.clone())),
        ("Value::from(Body)", Ok(hcl::Value::from(body.clone()))),
        ("Value::from(Expression::from(Body))", Ok(hcl::Value::from(hcl::Expression::from(body.clone())))),
    ];
    for (what, x) in all {
        let x = x.map_err(|e| Fail::new("error", format!("{what}: {e}")))?;
        ensure!(V::of(&x).same(&v), format!("differs-{what}"), "{what}: {x:?}\nfrom_str: {value:?}");
    }
    let j: J = hcl::from_str(&text).map_err(|e| Fail::new("json", format!("{e}")))?;
    ensure!(of_json(&j) == v, "json", "{j:?}\nis not {value:?}");
    let map: hcl::Map<String, hcl::Value> = hcl::from_str(&text).map_err(|e| Fail::new("map", format!("{e}")))?;
    ensure!(V::of(&hcl::Value::Object(map)).same(&v), "map", "differs from {value:?}");
    let again: hcl::Body = hcl::from_str(&text).map_err(|e| Fail::new("body", format!("{e}")))?;
    ensure!(again == body, "body", "{again:?}\nis not {body:?}");
    Ok(())
}

/// Different keys of an object that become the same string.
fn equal_keys(e: &hcl::Expression) -> bool {
    use hcl::Expression as X;
    match e {
        X::Parenthesis(e) => equal_keys(e),
        X::Array(l) => l.iter().any(equal_keys),
        X::Object(o) => {
            let short = match hcl::Value::from(X::Object(o.clone())) {
                hcl::Value::Object(m) => m.len() < o.len(),
                _ => true,
            };
            short || o.values().any(equal_keys)
        }
        _ => false,
    }
}

pub fn body_equal_keys(b: &hcl::Body) -> bool {
    b.attributes().any(|a| equal_keys(&a.expr)) || b.blocks().any(|b| body_equal_keys(&b.body))
}

fn duplicate_keys(b: &[S]) -> bool {
    // Equal keys written twice: only the last entry is kept.
    b.iter().any(|s| match s {
        S::Attr(_, e) => {
            let mut dup = false;
            value_walk(e, &mut |e| {
                if let E::Obj(o) = e {
                    dup |= o.iter().enumerate().any(|(i, (k, _))| o[..i].iter().any(|(l, _)| l == k));
                }
            });
            dup
        }
        S::Block(b) => duplicate_keys(&b.body),
    })
}

// --- Typed ----------------------------------------------------------------------------------------

/// A type that the value fits, and the value in that type. Some parts are skipped.
fn shape_for(s: &mut Src, v: &V, depth: usize) -> (Sh, Dv) {
    if s.chance(1, 8) && !matches!(v, V::Null) {
        let (t, d) = shape_for(s, v, depth);
        if !dyns::nullable(&t) {
            return (Sh::Opt(Box::new(t)), Dv::Some(Box::new(d)));
        }
    }
    if s.chance(1, 10) {
        let (t, d) = shape_for(s, v, depth);
        return (Sh::New("N", Box::new(t)), d);
    }
    if depth > 0 && s.chance(1, 12) {
        return (Sh::Ignored, Dv::Unit);
    }
    match v {
        V::Null => match s.below(3) {
            0 => (Sh::Unit, Dv::Unit),
            1 => (Sh::UnitStruct("U"), Dv::Unit),
            _ => (Sh::Opt(Box::new(Sh::Str)), Dv::None),
        },
        V::Bool(b) => (Sh::Bool, Dv::Bool(*b)),
        V::Num(n) => match n.int() {
            Some(i) => {
                let mut opts = vec![(Sh::F64, Dv::F(i as f64))];
                for b in [8u8, 16, 32, 64] {
                    if i >= -(1i128 << (b - 1)) && i < 1i128 << (b - 1) {
                        opts.push((Sh::I(b), Dv::I(i)));
                    }
                    if i >= 0 && i < 1i128 << b {
                        opts.push((Sh::U(b), Dv::U(i as u128)));
                    }
                }
                opts.push((Sh::I(128), Dv::I(i)));
                if i >= 0 {
                    opts.push((Sh::U(128), Dv::U(i as u128)));
                }
                s.pick(&opts).clone()
            }
            None => (Sh::F64, Dv::F(n.to_f64())),
        },
        V::Str(t) => {
            let mut it = t.chars();
            match (it.next(), it.next()) {
                (Some(ch), None) if s.bool() => (Sh::Char, Dv::Char(ch)),
                _ => match s.below(4) {
                    0 if !t.is_empty() && t.chars().all(|c| c.is_alphanumeric() || c == ' ' || c == '_') => {
                        let names = dyns::intern_list(&["other", dyns::intern(t)]);
                        let i = if t == "other" { 0 } else { 1 };
                        (Sh::Enum("E", names, vec![dyns::Var::Unit, dyns::Var::Unit]), Dv::Var(i, Box::new(Dv::Unit)))
                    }
                    _ => (Sh::Str, Dv::Str(t.clone())),
                },
            }
        }
        V::Arr(l) => {
            if l.is_empty() && s.bool() {
                return (Sh::Seq(Box::new(Sh::Str)), Dv::Seq(vec![]));
            }
            let (ts, ds): (Vec<Sh>, Vec<Dv>) = l.iter().map(|v| shape_for(s, v, depth + 1)).unzip();
            let t = if s.bool() { Sh::Tup(ts) } else { Sh::TupS("T", ts) };
            (t, Dv::Seq(ds))
        }
        V::Obj(o) => {
            if o.is_empty() && s.bool() {
                return (Sh::Map(Box::new(Sh::Str), Box::new(Sh::Str)), Dv::Map(vec![]));
            }
            if o.len() == 1 && depth > 0 && s.chance(1, 4) {
                // As enum variant.
                let (k, v) = &o[0];
                let names = dyns::intern_list(&[dyns::intern(k)]);
                let (t, d) = match v {
                    V::Arr(l) if s.bool() && l.len() >= 2 => {
                        let (ts, ds): (Vec<Sh>, Vec<Dv>) = l.iter().map(|v| shape_for(s, v, depth + 1)).unzip();
                        (dyns::Var::Tup(ts), Dv::Seq(ds))
                    }
                    V::Obj(_) if s.bool() => match fields(s, v, depth) {
                        (Sh::Struct(_, fs, ts), d) => (dyns::Var::Struct(fs, ts), d),
                        _ => unreachable!(),
                    },
                    v => {
                        let (t, d) = shape_for(s, v, depth + 1);
                        (dyns::Var::New(t), d)
                    }
                };
                return (Sh::Enum("E", names, vec![t]), Dv::Var(0, Box::new(d)));
            }
            fields(s, v, depth)
        }
    }
}

fn fields(s: &mut Src, v: &V, depth: usize) -> (Sh, Dv) {
    let V::Obj(o) = v else { unreachable!() };
    let (mut fs, mut ts, mut ds) = (vec![], vec![], vec![]);
    for (k, v) in o {
        // Fields the type does not know are skipped.
        if s.chance(1, 8) {
            continue;
        }
        fs.push(dyns::intern(k));
        let (t, d) = shape_for(s, v, depth + 1);
        ts.push(t);
        ds.push(d);
    }
    if s.chance(1, 6) && !o.iter().any(|(k, _)| k == "missing") {
        fs.push("missing");
        ts.push(Sh::Opt(Box::new(Sh::Bool)));
        ds.push(Dv::None);
    }
    (Sh::Struct("S", dyns::intern_list(&fs), ts), Dv::Seq(ds))
}

fn c18_typed(s: &mut Src, c: &mut Case) -> Res {
    let (b, text) = document(s, c);
    if body_bad_key(&b) {
        c.discard = true;
        return Ok(());
    }
    let value: hcl::Value = hcl::from_str(&text).map_err(|e| Fail::new("error", format!("{e}")))?;
    let (sh, want) = shape_for(s, &V::of(&value), 0);
    c.input = format!("{text}\nas {sh:?}");
    let body: hcl::Body = text.parse().map_err(|e| Fail::new("error", format!("{e}")))?;
    if body_equal_keys(&body) {
        // A duplicate field for types with fields.
        c.label("equal-keys");
        return Ok(());
    }
    c.nontrivial = dyns::size(&sh) >= 5;
    let expr = hcl::Expression::from(body.clone());
    let all = no_panic(|| {
        [
            ("from_str", dyns::read(&sh, || hcl::from_str(&text))),
            ("from_slice", dyns::read(&sh, || hcl::from_slice(text.as_bytes()))),
            ("from_reader", dyns::read(&sh, || hcl::from_reader(text.as_bytes()))),
            ("from_body", dyns::read(&sh, || hcl::from_body(body.clone()))),
            ("from_value", dyns::read(&sh, || hcl::from_value(value.clone()))),
            ("expression", De(&sh).deserialize(expr.clone().into_deserializer())),
        ]
    })
    .map_err(|m| Fail::new("panic", m))?;
    for (what, x) in all {
        match x {
            Ok(x) => ensure!(x == want, format!("typed-{what}"), "{what}: {x:?}\nwant {want:?}"),
            Err(e) => fail!(format!("typed-error-{what}"), "{what}: {e}, want {want:?}"),
        }
    }
    Ok(())
}
