//! C10: typed data round trips.

use crate::dyns::{self, De, Dv, Node, Ser, Sh, ShGen};
use crate::engine::{no_panic, Case, Fail, Prop, Res, Test};
use crate::props::mapping::of_json;
use crate::props::t;
use crate::refeval::V;
use crate::src::Src;
use crate::{ensure, fail};
use serde::de::{DeserializeSeed, IntoDeserializer};
use serde_json::Value as J;

pub fn add(p: &mut Vec<Prop>, ts: &mut Vec<Test>) {
    p.push(Prop { id: "C10", rule: "a type built from at least three types whose values the serializer accepts" });
    ts.push(t("C10", "document", 400_000, 4_000_000, c10_document));
    ts.push(t("C10", "value", 600_000, 6_000_000, c10_value));
    ts.push(t("C10", "derived", 150_000, 600_000, crate::props::derived::c10_derived));
    ts.push(t("C10", "blocks", 60_000, 600_000, c10_blocks));
    p.push(Prop { id: "C21", rule: "a type built from at least three types with a node in it, or a document of at least two structures" });
    ts.push(t("C21", "document", 60_000, 600_000, c21_nodes));
    ts.push(t("C21", "value", 60_000, 600_000, c21_value));
    ts.push(t("C21", "structures", 60_000, 600_000, crate::props::parts::c21_structures));
    ts.push(t("C21", "refused", 60_000, 600_000, crate::props::parts::c21_refused));
    ts.push(t("C21", "nested", 60_000, 600_000, crate::props::parts::c21_nested));
}

fn label_shape(c: &mut Case, t: &Sh) {
    let name = match t {
        Sh::Unit | Sh::UnitStruct(_) | Sh::Ignored => "unit",
        Sh::Bool => "bool",
        Sh::Node(n) => {
            c.label("node");
            match n {
                Node::Expr => "node-expression",
                Node::Variable => "node-variable",
                Node::Traversal => "node-traversal",
                Node::FuncCall => "node-call",
                Node::Conditional => "node-conditional",
                Node::Operation | Node::Unary | Node::Binary => "node-operation",
                Node::For => "node-for",
                Node::Template => "node-template",
                Node::Heredoc => "node-heredoc",
                Node::Number => "node-number",
                Node::Ident => "node-identifier",
                Node::Text => "node-text",
            }
        }
        Sh::I(_) | Sh::U(_) => "integer",
        Sh::F32 | Sh::F64 => "float",
        Sh::Char => "char",
        Sh::Str => "string",
        Sh::Bytes => "bytes",
        Sh::Opt(t) => {
            label_shape(c, t);
            "option"
        }
        Sh::New(_, t) => {
            label_shape(c, t);
            "newtype"
        }
        Sh::Block(t) | Sh::Labeled(t) => {
            label_shape(c, t);
            "block"
        }
        Sh::Seq(t) => {
            label_shape(c, t);
            "sequence"
        }
        Sh::Tup(ts) | Sh::TupS(_, ts) => {
            ts.iter().for_each(|t| label_shape(c, t));
            "tuple"
        }
        Sh::Map(k, t) => {
            c.label(match **k {
                Sh::Str => "string-keys",
                Sh::I(_) | Sh::U(_) => "integer-keys",
                Sh::Enum(..) => "enum-keys",
                _ => "other-keys",
            });
            label_shape(c, t);
            "map"
        }
        Sh::Struct(_, _, ts) => {
            ts.iter().for_each(|t| label_shape(c, t));
            "struct"
        }
        Sh::Enum(_, _, vs) => {
            for v in vs {
                match v {
                    dyns::Var::Unit => c.label("unit-variant"),
                    dyns::Var::New(t) => {
                        label_shape(c, t);
                        c.label("newtype-variant");
                    }
                    dyns::Var::Tup(ts) => {
                        ts.iter().for_each(|t| label_shape(c, t));
                        c.label("tuple-variant");
                    }
                    dyns::Var::Struct(_, ts) => {
                        ts.iter().for_each(|t| label_shape(c, t));
                        c.label("struct-variant");
                    }
                }
            }
            "enum"
        }
    };
    c.label(name);
}

/// Variants with names that are not identifiers are refused.
fn odd_variant(t: &Sh) -> bool {
    dyns::any(t, &|t| matches!(t, Sh::Enum(_, names, _) if odd(names)))
}

fn odd(names: &[&str]) -> bool {
    names.iter().any(|n| !hcl::Identifier::new(*n).is_ok_and(|i| i.as_str() == *n))
}

/// The fields of a struct variant are attributes of a block at the top level.
fn odd_fields(t: &Sh) -> bool {
    match t {
        Sh::New(_, t) | Sh::Opt(t) => odd_fields(t),
        Sh::Enum(_, _, vs) => vs.iter().any(|v| matches!(v, dyns::Var::Struct(fs, _) if odd(fs))),
        _ => false,
    }
}

/// Values have string keys only.
fn integer_key(t: &Sh) -> bool {
    dyns::any(t, &|t| matches!(t, Sh::Map(k, _) if matches!(**k, Sh::I(_) | Sh::U(_))))
}

fn same(what: &str, got: Result<Dv, hcl::Error>, want: &Dv, ctx: &dyn Fn() -> String) -> Res {
    match got {
        Ok(x) => ensure!(x == *want, format!("differs-{what}"), "{what}: {x:?}\nwant {want:?}\n{}", ctx()),
        Err(e) => fail!(format!("error-{what}"), "{what}: {e}\nwant {want:?}\n{}", ctx()),
    }
    Ok(())
}

fn c10_document(s: &mut Src, c: &mut Case) -> Res {
    let mut sh = ShGen::new(s).top();
    let mut v = dyns::value(s, &sh, true);
    if s.chance(1, 8) {
        c.label("optional-document");
        sh = Sh::Opt(Box::new(sh));
        v = Dv::Some(Box::new(v));
    }
    c.input = format!("{v:?}\nas {sh:?}");
    label_shape(c, &sh);
    let data = Ser(&sh, &v);
    let text = match no_panic(|| hcl::to_string(&data)).map_err(|m| Fail::new("panic", m))? {
        Ok(t) => t,
        Err(e) => {
            c.label("refused");
            ensure!(odd_variant(&sh) || odd_fields(&sh), "refused", "{e}");
            ensure!(hcl::to_vec(&data).is_err(), "refused", "to_vec accepts what to_string does not");
            return Ok(());
        }
    };
    c.nontrivial = dyns::size(&sh) >= 3;
    round_trip(&sh, &v, &text)
}

fn round_trip(sh: &Sh, v: &Dv, text: &str) -> Res {
    let data = Ser(sh, v);
    let json = serde_json::to_value(&data).ok();
    let show = || text.to_string();
    same("from_str", dyns::read(sh, || hcl::from_str(text)), v, &show)?;
    same("from_slice", dyns::read(sh, || hcl::from_slice(text.as_bytes())), v, &show)?;
    same("from_reader", dyns::read(sh, || hcl::from_reader(text.as_bytes())), v, &show)?;
    let body = hcl::Body::from_serializable(&data).map_err(|e| Fail::new("body", format!("{e}")))?;
    same("from_body", dyns::read(sh, || hcl::from_body(body.clone())), v, &|| format!("{body:?}"))?;
    let parsed: hcl::Body = text.parse().map_err(|e| Fail::new("parse", format!("{e}")))?;
    let (a, b) = (hcl::Value::from(parsed), hcl::Value::from(body));
    ensure!(a == b, "body", "{a:?} from {text:?}\nnot {b:?}");
    let vec = hcl::to_vec(&data).map_err(|e| Fail::new("to_vec", format!("{e}")))?;
    let mut out = Vec::new();
    hcl::to_writer(&mut out, &data).map_err(|e| Fail::new("to_writer", format!("{e}")))?;
    ensure!(vec == text.as_bytes() && out == text.as_bytes(), "writers", "{vec:?}\n{out:?}\nare not {text:?}");
    // The data tree.
    if let Some(j) = json {
        let got: J = hcl::from_str(text).map_err(|e| Fail::new("json", format!("{e}")))?;
        ensure!(of_json(&got) == of_json(&j), "json", "{got}\nis not {j}\n{text}");
    }
    Ok(())
}

/// What a body holds.
#[derive(Debug, PartialEq)]
enum Part {
    Attr(String),
    Block(String, Vec<String>, Vec<Part>),
}

fn attr(name: &str) -> Vec<Part> {
    vec![Part::Attr(name.to_string())]
}

fn parts(t: &Sh, v: &Dv) -> Vec<Part> {
    match (t, v) {
        (Sh::New(_, t), v) => parts(t, v),
        (Sh::Struct(_, fs, ts), Dv::Seq(vs)) => fs.iter().zip(ts).zip(vs).flat_map(|((f, t), v)| field(f, t, v)).collect(),
        (Sh::Map(_, t), Dv::Map(m)) => m.iter().flat_map(|(k, v)| field(&key_text(k), t, v)).collect(),
        _ => unreachable!("{t:?}"),
    }
}

fn key_text(k: &Dv) -> String {
    match k {
        Dv::Str(s) => s.clone(),
        _ => unreachable!("{k:?}"),
    }
}

fn field(name: &str, t: &Sh, v: &Dv) -> Vec<Part> {
    match (t, v) {
        (Sh::Opt(t), Dv::Some(v)) => field(name, t, v),
        (Sh::Block(t), v) => blocks(name, t, v),
        (Sh::Labeled(t), v) => labeled(name, t, v),
        _ => attr(name),
    }
}

fn block(name: &str, body: Vec<Part>) -> Vec<Part> {
    vec![Part::Block(name.to_string(), vec![], body)]
}

fn blocks(name: &str, t: &Sh, v: &Dv) -> Vec<Part> {
    match (t, v) {
        (Sh::New(_, t) | Sh::Block(t), v) => blocks(name, t, v),
        (Sh::Labeled(t), v) => labeled(name, t, v),
        (Sh::Tup(ts), Dv::Seq(vs)) => ts.iter().zip(vs).flat_map(|(t, v)| blocks(name, t, v)).collect(),
        (Sh::Map(k, t), Dv::Map(m)) => {
            let m = m.iter().map(|(x, y)| (text_of(k, x), y));
            block(name, m.flat_map(|(k, v)| field(&k, t, v)).collect())
        }
        (Sh::Enum(_, names, vars), Dv::Var(i, v)) => block(
            name,
            match (&vars[*i], &**v) {
                (dyns::Var::New(t), v) => field(names[*i], t, v),
                (dyns::Var::Tup(ts), Dv::Seq(vs)) => ts.iter().zip(vs).flat_map(|(t, v)| blocks(names[*i], t, v)).collect(),
                (dyns::Var::Struct(fs, ts), Dv::Seq(vs)) => {
                    block(names[*i], fs.iter().zip(ts).zip(vs).flat_map(|((f, t), v)| field(f, t, v)).collect())
                }
                _ => unreachable!(),
            },
        ),
        _ => block(name, parts(t, v)),
    }
}

fn text_of(t: &Sh, v: &Dv) -> String {
    match (t, v) {
        (Sh::New(_, t), v) => text_of(t, v),
        (Sh::Enum(_, names, _), Dv::Var(i, _)) => names[*i].to_string(),
        (_, v) => key_text(v),
    }
}

fn with_label(label: &str, mut l: Vec<Part>) -> Vec<Part> {
    for p in &mut l {
        match p {
            Part::Block(_, ls, _) => ls.insert(0, label.to_string()),
            Part::Attr(_) => unreachable!(),
        }
    }
    l
}

fn labeled(name: &str, t: &Sh, v: &Dv) -> Vec<Part> {
    match (t, v) {
        (Sh::Map(k, t), Dv::Map(m)) => m.iter().flat_map(|(x, v)| with_label(&text_of(k, x), blocks(name, t, v))).collect(),
        (Sh::Struct(_, fs, ts), Dv::Seq(vs)) => {
            fs.iter().zip(ts).zip(vs).flat_map(|((f, t), v)| with_label(f, blocks(name, t, v))).collect()
        }
        (Sh::Enum(_, names, vars), Dv::Var(i, v)) => with_label(
            names[*i],
            match (&vars[*i], &**v) {
                (dyns::Var::New(t), v) => blocks(name, t, v),
                (dyns::Var::Tup(ts), Dv::Seq(vs)) => ts.iter().zip(vs).flat_map(|(t, v)| blocks(name, t, v)).collect(),
                (dyns::Var::Struct(fs, ts), Dv::Seq(vs)) => {
                    fs.iter().zip(ts).zip(vs).flat_map(|((f, t), v)| with_label(f, blocks(name, t, v))).collect()
                }
                _ => unreachable!(),
            },
        ),
        _ => unreachable!("{t:?}"),
    }
}

fn parts_of(b: &hcl::Body) -> Vec<Part> {
    b.iter()
        .map(|s| match s {
            hcl::Structure::Attribute(a) => Part::Attr(a.key.to_string()),
            hcl::Structure::Block(b) => {
                Part::Block(b.identifier.to_string(), b.labels.iter().map(|l| l.as_str().to_string()).collect(), parts_of(&b.body))
            }
        })
        .collect()
}

fn c10_blocks(s: &mut Src, c: &mut Case) -> Res {
    let sh = ShGen::new(s).body(3);
    let v = dyns::value(s, &sh, true);
    c.input = format!("{v:?}\nas {sh:?}");
    label_shape(c, &sh);
    let data = Ser(&sh, &v);
    let text = match no_panic(|| hcl::to_string(&data)).map_err(|m| Fail::new("panic", m))? {
        Ok(t) => t,
        Err(e) => {
            c.label("refused");
            ensure!(odd_variant(&sh), "refused", "{e}");
            return Ok(());
        }
    };
    c.nontrivial = text.contains('{') && dyns::size(&sh) >= 3;
    round_trip(&sh, &v, &text)?;
    let body: hcl::Body = text.parse().map_err(|e| Fail::new("parse", format!("{e}")))?;
    let (got, want) = (parts_of(&body), parts(&sh, &v));
    ensure!(got == want, "structure", "{got:?}\nis not {want:?}\n{text}");
    Ok(())
}

// --- C21 ------------------------------------------------------------------------------------------

/// The same with strings that mark the places of the nodes.
fn marked(t: &Sh) -> Sh {
    let all = |ts: &[Sh]| ts.iter().map(marked).collect::<Vec<_>>();
    let b = |t: &Sh| Box::new(marked(t));
    match t {
        Sh::Node(_) => Sh::Str,
        Sh::Opt(t) => Sh::Opt(b(t)),
        Sh::New(n, t) => Sh::New(n, b(t)),
        Sh::Seq(t) => Sh::Seq(b(t)),
        Sh::Block(t) => Sh::Block(b(t)),
        Sh::Labeled(t) => Sh::Labeled(b(t)),
        Sh::Tup(ts) => Sh::Tup(all(ts)),
        Sh::TupS(n, ts) => Sh::TupS(n, all(ts)),
        Sh::Map(k, t) => Sh::Map(k.clone(), b(t)),
        Sh::Struct(n, fs, ts) => Sh::Struct(n, fs, all(ts)),
        Sh::Enum(n, names, vs) => {
            let vs = vs.iter().map(|v| match v {
                dyns::Var::Unit => dyns::Var::Unit,
                dyns::Var::New(t) => dyns::Var::New(marked(t)),
                dyns::Var::Tup(ts) => dyns::Var::Tup(all(ts)),
                dyns::Var::Struct(fs, ts) => dyns::Var::Struct(fs, all(ts)),
            });
            Sh::Enum(n, names, vs.collect())
        }
        t => t.clone(),
    }
}

fn marker(n: usize) -> String {
    format!("\u{1}{n}\u{1}")
}

fn mark(v: &Dv, nodes: &mut Vec<hcl::Expression>) -> Dv {
    match v {
        Dv::Node(e) => {
            nodes.push(e.clone());
            Dv::Str(marker(nodes.len() - 1))
        }
        Dv::Some(v) => Dv::Some(Box::new(mark(v, nodes))),
        Dv::Seq(l) => Dv::Seq(l.iter().map(|v| mark(v, nodes)).collect()),
        Dv::Map(m) => Dv::Map(m.iter().map(|(k, v)| (k.clone(), mark(v, nodes))).collect()),
        Dv::Var(i, v) => Dv::Var(*i, Box::new(mark(v, nodes))),
        v => v.clone(),
    }
}

fn unmark(e: hcl::Expression, nodes: &[hcl::Expression], n: &mut usize) -> hcl::Expression {
    use hcl::Expression as X;
    match e {
        X::String(x) => match (0..nodes.len()).find(|i| marker(*i) == x) {
            Some(i) => {
                *n += 1;
                nodes[i].clone()
            }
            None => X::String(x),
        },
        X::Array(l) => X::Array(l.into_iter().map(|e| unmark(e, nodes, n)).collect()),
        X::Object(m) => X::Object(m.into_iter().map(|(k, e)| (k, unmark(e, nodes, n))).collect()),
        e => e,
    }
}

fn unmark_body(b: hcl::Body, nodes: &[hcl::Expression], n: &mut usize) -> hcl::Body {
    b.into_iter()
        .map(|s| match s {
            hcl::Structure::Attribute(a) => hcl::Attribute { key: a.key, expr: unmark(a.expr, nodes, n) }.into(),
            hcl::Structure::Block(b) => hcl::Structure::Block(hcl::Block { body: unmark_body(b.body, nodes, n), ..b }),
        })
        .collect()
}

/// Keys that are identifiers may have to be written as strings.
fn quoted(e: hcl::Expression) -> hcl::Expression {
    use hcl::Expression as X;
    match e {
        X::Array(l) => X::Array(l.into_iter().map(quoted).collect()),
        X::Object(m) => {
            let key = |k| match k {
                hcl::ObjectKey::Identifier(i) => X::String(i.into_inner()).into(),
                k => k,
            };
            X::Object(m.into_iter().map(|(k, e)| (key(k), quoted(e))).collect())
        }
        e => e,
    }
}

fn quoted_body(b: hcl::Body) -> hcl::Body {
    b.into_iter()
        .map(|s| match s {
            hcl::Structure::Attribute(a) => hcl::Attribute { key: a.key, expr: quoted(a.expr) }.into(),
            hcl::Structure::Block(b) => hcl::Structure::Block(hcl::Block { body: quoted_body(b.body), ..b }),
        })
        .collect()
}

fn c21_nodes(s: &mut Src, c: &mut Case) -> Res {
    let mut g = ShGen::new(s);
    g.nodes = true;
    g.odd = g.s.chance(1, 4);
    let sh = if g.s.bool() { g.top() } else { g.body(2) };
    let v = dyns::value(s, &sh, true);
    c.input = format!("{v:?}\nas {sh:?}");
    label_shape(c, &sh);
    let data = Ser(&sh, &v);
    let body = match no_panic(|| hcl::Body::from_serializable(&data)).map_err(|m| Fail::new("panic", m))? {
        Ok(b) => b,
        Err(e) => {
            c.label("refused");
            ensure!(odd_variant(&sh) || odd_fields(&sh), "refused", "{e}");
            return Ok(());
        }
    };
    let mut nodes = Vec::new();
    let plain = mark(&v, &mut nodes);
    let plain_sh = marked(&sh);
    c.nontrivial = !nodes.is_empty() && dyns::size(&sh) >= 3;
    let want = hcl::Body::from_serializable(&Ser(&plain_sh, &plain)).map_err(|e| Fail::new("refused", format!("marked: {e}")))?;
    let mut n = 0;
    let want = unmark_body(want, &nodes, &mut n);
    ensure!(n == nodes.len(), "marked", "{n} of {} nodes", nodes.len());
    ensure!(body == want, "body", "{body:?}\nis not {want:?}");
    let text = hcl::to_string(&data).map_err(|e| Fail::new("to_string", format!("{e}")))?;
    let show = || text.clone();
    same("from_str", dyns::read(&sh, || hcl::from_str(&text)), &v, &show)?;
    same("from_body", dyns::read(&sh, || hcl::from_body(body)), &v, &show)?;
    let parsed: hcl::Body = text.parse().map_err(|e| Fail::new("parse", format!("{e}\n{text}")))?;
    let (parsed, want) = (quoted_body(parsed), quoted_body(want));
    ensure!(parsed == want, "text", "{parsed:?}\nis not {want:?}\n{text}");
    c21_forms(&sh, &v, &plain_sh, &plain, &nodes)
}

/// As expression, and outside of HCL.
fn c21_forms(sh: &Sh, v: &Dv, plain_sh: &Sh, plain: &Dv, nodes: &[hcl::Expression]) -> Res {
    let data = Ser(sh, v);
    let Ok(want) = hcl::to_expression(Ser(plain_sh, plain)) else {
        ensure!(hcl::to_expression(&data).is_err(), "expression-refused", "to_expression refuses it without the nodes only");
        return Ok(());
    };
    let want = unmark(want, nodes, &mut 0);
    let e = hcl::to_expression(&data).map_err(|e| Fail::new("refused", format!("to_expression: {e}")))?;
    ensure!(e == want, "expression", "{e:?}\nis not {want:?}");
    same("expression", De(sh).deserialize(e.clone().into_deserializer()), v, &|| format!("{e:?}"))?;
    if integer_key(sh) {
        return Ok(());
    }
    let val = hcl::to_value(&data).map_err(|e| Fail::new("refused", format!("to_value: {e}")))?;
    ensure!(stands_for(&V::of(&val), &e), "value", "{val:?}\nfor {e:?}");
    let j = serde_json::to_value(&data).map_err(|e| Fail::new("refused", format!("to JSON: {e}")))?;
    ensure!(stands_for(&of_json(&j), &e), "json", "{j}\nfor {e:?}");
    let val = hcl::Value::from(e.clone());
    ensure!(stands_for(&V::of(&val), &e), "value-from", "{val:?}\nfor {e:?}");
    Ok(())
}

/// Whether the data is what the expression is where there are no expressions. A template may be
/// written as what it is or as an interpolation of the template.
fn stands_for(v: &V, e: &hcl::Expression) -> bool {
    use hcl::Expression as X;
    let interpolation = |s: &str| {
        let inner = s.strip_prefix("${").and_then(|s| s.strip_suffix('}'));
        inner.and_then(|s| s.parse::<X>().ok()).is_some_and(|x| x == *e || x.to_string() == e.to_string())
    };
    match (e, v) {
        (X::Null, V::Null) => true,
        (X::Bool(b), V::Bool(c)) => b == c,
        (X::Number(n), V::Num(m)) => crate::reify::number(n) == *m,
        (X::String(s), V::Str(t)) => s == t,
        (X::Array(l), V::Arr(m)) => l.len() == m.len() && l.iter().zip(m).all(|(e, v)| stands_for(v, e)),
        (X::Object(m), V::Obj(o)) => {
            let text = |k: &hcl::ObjectKey| match k {
                hcl::ObjectKey::Expression(X::Parenthesis(_)) => None,
                k => Some(k.to_string()),
            };
            let names: Vec<_> = m.keys().map(text).collect();
            // Keys that fall together.
            if names.iter().enumerate().any(|(i, n)| n.is_none() || names[..i].contains(n)) {
                return o.len() <= m.len();
            }
            o.len() == m.len()
                && m.iter().all(|(k, e)| {
                    o.iter().any(|(l, v)| {
                        let key = match k {
                            hcl::ObjectKey::Identifier(i) => i.as_str() == l,
                            hcl::ObjectKey::Expression(X::Null | X::Bool(_) | X::Number(_)) => k.to_string() == *l,
                            hcl::ObjectKey::Expression(k) => stands_for(&V::Str(l.clone()), k),
                            k => panic!("{k:?}"),
                        };
                        key && stands_for(v, e)
                    })
                })
        }
        (X::Parenthesis(e), v) => stands_for(v, e),
        (X::TemplateExpr(t), V::Str(s)) => interpolation(s) || t.to_string() == *s,
        (X::Null | X::Bool(_) | X::Number(_) | X::String(_) | X::Array(_) | X::Object(_), _) => false,
        (_, V::Str(s)) => interpolation(s),
        _ => false,
    }
}

fn c21_value(s: &mut Src, c: &mut Case) -> Res {
    let mut g = ShGen::new(s);
    g.nodes = true;
    g.odd = g.s.chance(1, 4);
    let sh = g.shape(3);
    let v = dyns::value(s, &sh, false);
    c.input = format!("{v:?}\nas {sh:?}");
    label_shape(c, &sh);
    let mut nodes = Vec::new();
    let plain = mark(&v, &mut nodes);
    c.nontrivial = !nodes.is_empty() && dyns::size(&sh) >= 3;
    c21_forms(&sh, &v, &marked(&sh), &plain, &nodes)
}

fn c10_value(s: &mut Src, c: &mut Case) -> Res {
    let sh = ShGen::new(s).shape(3);
    let v = dyns::value(s, &sh, false);
    c.input = format!("{v:?}\nas {sh:?}");
    label_shape(c, &sh);
    let data = Ser(&sh, &v);
    let json = serde_json::to_value(&data).ok();
    match no_panic(|| hcl::to_value(&data)).map_err(|m| Fail::new("panic", m))? {
        Ok(val) => {
            c.nontrivial = dyns::size(&sh) >= 3;
            same("from_value", dyns::read(&sh, || hcl::from_value(val.clone())), &v, &|| format!("{val:?}"))?;
            if let Some(j) = &json {
                ensure!(V::of(&val) == of_json(j), "json-value", "{val:?}\nis not {j}");
            }
        }
        Err(e) => {
            c.label("value-refused");
            ensure!(integer_key(&sh), "refused", "to_value: {e}");
        }
    }
    match no_panic(|| hcl::to_expression(&data)).map_err(|m| Fail::new("panic", m))? {
        Ok(e) => {
            c.nontrivial = dyns::size(&sh) >= 3;
            same("expression", De(&sh).deserialize(e.clone().into_deserializer()), &v, &|| format!("{e:?}"))?;
            let text = e.to_string();
            let p: hcl::Expression = text.parse().map_err(|e| Fail::new("parse", format!("{text:?}: {e}")))?;
            same("parsed", De(&sh).deserialize(p.into_deserializer()), &v, &|| text.clone())?;
            let val = hcl::Value::from(e);
            if let Some(j) = &json {
                ensure!(V::of(&val) == of_json(j), "json-expression", "{val:?}\nis not {j}");
            }
        }
        Err(e) => {
            c.label("expression-refused");
            ensure!(odd_variant(&sh), "refused", "to_expression: {e}");
        }
    }
    Ok(())
}
