//! C08: formatted output parses back to the same.
//! C09: plain data survives.

use crate::build;
use crate::engine::{no_panic, Case, Fail, Prop, Res, Test};
use crate::gen::{self, Gen};
use crate::model::*;
use crate::props::built::{join, map_elements, map_texpr_meaning};
use crate::props::mapping::of_json;
use crate::props::parse::{compound, doc, ex, labels, labels_body};
use crate::props::t;
use crate::refeval::V;
use crate::src::Src;
use crate::{ensure, fail, reify};
use hcl::format::{Format, Formatter};
use hcl::ser::Serializer;
use serde::Serialize;
use serde_json::Value as J;
use std::cell::Cell;
use std::collections::BTreeMap;

pub fn add(p: &mut Vec<Prop>, ts: &mut Vec<Test>) {
    p.push(Prop { id: "C08", rule: "a body of at least two structures, an expression of at least three nodes, or a template of two elements" });
    ts.push(t("C08", "body", 60_000, 600_000, c08_body));
    ts.push(t("C08", "expr", 60_000, 600_000, c08_expr));
    ts.push(t("C08", "template", 60_000, 600_000, c08_template));
    ts.push(t("C08", "reuse", 40_000, 400_000, c08_reuse));
    p.push(Prop { id: "C09", rule: "a map with nested collections or strings with characters that need escaping" });
    ts.push(t("C09", "document", 100_000, 1_000_000, c09_document));
    ts.push(t("C09", "expression", 100_000, 1_000_000, c09_expression));
    ts.push(t("C09", "value", 100_000, 1_000_000, c09_value));
}

// --- Settings -------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
struct Set {
    indent: &'static str,
    dense: bool,
    arrays: bool,
    objects: bool,
    idents: bool,
}

fn settings(s: &mut Src) -> Set {
    if s.chance(1, 4) {
        return Set { indent: "  ", dense: false, arrays: false, objects: false, idents: false };
    }
    Set { indent: s.pick(&["  ", "", " ", "    ", "\t", " \t"]), dense: s.bool(), arrays: s.bool(), objects: s.bool(), idents: s.bool() }
}

fn formatter<W: std::io::Write>(o: &Set, w: W) -> Formatter<'static, W> {
    let b = Formatter::builder().indent(o.indent.as_bytes()).dense(o.dense).prefer_ident_keys(o.idents);
    let b = match (o.arrays, o.objects) {
        (true, true) => b.compact(true),
        (a, o) => b.compact_arrays(a).compact_objects(o),
    };
    b.build(w)
}

fn run(o: &Set, x: &impl Format) -> Result<String, Fail> {
    no_panic(|| {
        let mut f = formatter(o, Vec::new());
        x.format_string(&mut f)
    })
    .map_err(|m| Fail::new("panic", m))?
    .map_err(|e| Fail::new("error", format!("{e}")))
}

fn label_settings(c: &mut Case, o: &Set) {
    for (b, n) in [(o.dense, "dense"), (o.arrays, "compact-arrays"), (o.objects, "compact-objects"), (o.idents, "ident-keys"), (o.indent.is_empty(), "no-indent")] {
        if b {
            c.label(n);
        }
    }
}

/// Whether a key is written as identifier or as string makes no difference. Where an object has the
/// same name as both, the one written later counts, as these fall together when written the same.
fn plain_keys(e: &E) -> E {
    map_expr(e, &|e| match e {
        E::Obj(v) => {
            let mut m: Vec<(K, E)> = Vec::new();
            for (k, v) in v {
                let k = match k {
                    K::Id(s) => K::Ex(E::Str(s)),
                    k => k,
                };
                match m.iter_mut().find(|(l, _)| *l == k && matches!(k, K::Ex(E::Str(_)))) {
                    Some(x) => x.1 = v,
                    None => m.push((k, v)),
                }
            }
            E::Obj(m)
        }
        e => e,
    })
}

/// Whether an object has the same name as identifier and as string.
fn same_keys(e: &E) -> bool {
    let n = Cell::new(0usize);
    let count = |e: E| {
        if let E::Obj(v) = &e {
            n.set(n.get() + v.len());
        }
        e
    };
    map_expr(e, &count);
    let before = n.replace(0);
    map_expr(&plain_keys(e), &count);
    n.get() != before
}

fn same_meaning(e: &E) -> E {
    norm(&plain_keys(e))
}

fn read_body(b: &hcl::Body) -> Result<Vec<S>, Fail> {
    let b = reify::d_body(b).map_err(|m| Fail::new("raw-template", m))?;
    Ok(norm_body(&map_body(&map_body(&b, &meaning_read), &plain_keys)))
}

fn read_expr(e: &hcl::Expression) -> Result<E, Fail> {
    let e = reify::d_expr(e).map_err(|m| Fail::new("raw-template", m))?;
    Ok(same_meaning(&meaning_read(&e)))
}

// --- C08 ------------------------------------------------------------------------------------------

/// Formatting what was read back writes the same text again. Built trees may hold templates as
/// any text with the meaning, e.g. flush heredocs with lines that are all indented; that text comes
/// back in the way the parser leaves it, so for them this is about the text after that.
fn stable<T: std::str::FromStr<Err = hcl::Error> + Format>(o: &Set, out: &str, again: &str, loose: bool) -> Res {
    if again == out {
        return Ok(());
    }
    ensure!(loose, "unstable", "{out}\nand then\n{again}");
    let p: T = again.parse().map_err(|e| Fail::new("rejected", format!("{e}\n{again}")))?;
    let third = run(o, &p)?;
    ensure!(third == again, "unstable", "{again}\nand then\n{third}");
    Ok(())
}

fn c08_body(s: &mut Src, c: &mut Case) -> Res {
    let o = settings(s);
    label_settings(c, &o);
    let built = s.bool();
    let (b, data) = if built {
        let b = Gen::new(s).body(3);
        labels_body(c, &b);
        c.nontrivial = b.len() >= 2;
        c.input = format!("{b:?}");
        let d = build::d_body(&b);
        (b, d)
    } else {
        let (b, d) = doc(s, c, false, false);
        let p: hcl::Body = d.text.parse().map_err(|e| Fail::new("rejected", format!("{e}")))?;
        (b, p)
    };
    c.input = format!("{o:?}\n{}", c.input);
    let want = norm_body(&map_body(&map_body(&b, &meaning), &plain_keys));
    let same = Cell::new(false);
    map_body(&b, &|e| {
        same.set(same.get() || same_keys(e));
        e.clone()
    });
    let same = same.get();
    let out = run(&o, &data)?;
    let p: hcl::Body = out.parse().map_err(|e| Fail::new("rejected", format!("{e}\n{out}\n{data:?}")))?;
    let got = read_body(&p)?;
    ensure!(got == want, "structure", "{out}\ngot  {got:?}\nwant {want:?}");
    let again = run(&o, &p)?;
    stable::<hcl::Body>(&o, &out, &again, built || same)?;
    // Serialization writes the same.
    let mut ser = Serializer::with_formatter(formatter(&o, Vec::new()));
    data.serialize_with(&mut ser)?;
    let text = String::from_utf8(ser.into_inner()).unwrap();
    ensure!(text == out, "serializer", "{text}\nis not\n{out}");
    let plain = run(&Set { indent: "  ", dense: false, arrays: false, objects: false, idents: false }, &data)?;
    for (what, x) in [
        ("hcl::to_string", hcl::to_string(&data)),
        ("format::to_string", hcl::format::to_string(&data)),
        ("format::to_vec", hcl::format::to_vec(&data).map(|v| String::from_utf8(v).unwrap())),
    ] {
        let x = x.map_err(|e| Fail::new("error", format!("{e}")))?;
        ensure!(x == plain, "default", "{what}: {x}\nis not\n{plain}");
    }
    for (st, want) in data.iter().zip(&want) {
        let out = run(&o, st)?;
        let p: hcl::Body = out.parse().map_err(|e| Fail::new("rejected", format!("{e}\n{out}\n{st:?}")))?;
        let got = read_body(&p)?;
        ensure!(got.iter().count() == 1 && got[0] == *want, "part", "{out}\ngot  {got:?}\nwant {want:?}");
    }
    Ok(())
}

trait SerializeWith {
    fn serialize_with(&self, s: &mut Serializer<'_, Vec<u8>>) -> Res;
}

impl<T: Serialize> SerializeWith for T {
    fn serialize_with(&self, s: &mut Serializer<'_, Vec<u8>>) -> Res {
        s.serialize(self).map_err(|e| Fail::new("serializer", format!("{e}")))
    }
}

fn c08_expr(s: &mut Src, c: &mut Case) -> Res {
    let o = settings(s);
    label_settings(c, &o);
    let built = s.bool();
    let (e, data) = if built {
        let e = Gen::new(s).value();
        labels(c, &e);
        c.nontrivial = compound(&e);
        c.input = format!("{e:?}");
        let d = build::d_expr(&e);
        (e, d)
    } else {
        let (e, d) = ex(s, c, false);
        let p: hcl::Expression = d.text.parse().map_err(|e| Fail::new("rejected", format!("{e}")))?;
        (e, p)
    };
    c.input = format!("{o:?}\n{}", c.input);
    let want = same_meaning(&meaning(&e));
    let same = same_keys(&e);
    let out = run(&o, &data)?;
    let p: hcl::Expression = out.parse().map_err(|e| Fail::new("rejected", format!("{e}\n{out}\n{data:?}")))?;
    let got = read_expr(&p)?;
    ensure!(got == want, "structure", "{out}\ngot  {got:?}\nwant {want:?}");
    let again = run(&o, &p)?;
    stable::<hcl::Expression>(&o, &out, &again, built || same)?;
    let shown = data.to_string();
    let plain = hcl::format::to_string(&data).map_err(|e| Fail::new("error", format!("{e}")))?;
    ensure!(shown == plain, "display", "{shown}\nis not\n{plain}");
    // As element of other things.
    let wrapped: [(&str, hcl::Expression); 4] = [
        ("array", vec![data.clone(), hcl::Expression::from(1)].into()),
        ("object", hcl::expr::Object::from([(hcl::ObjectKey::from(hcl::Identifier::new("k").unwrap()), data.clone()), (hcl::ObjectKey::from(hcl::Identifier::new("l").unwrap()), hcl::Expression::from(1))]).into()),
        ("parenthesis", hcl::Expression::Parenthesis(Box::new(data.clone()))),
        ("argument", hcl::expr::FuncCall::builder("f").arg(data.clone()).arg(1).build().into()),
    ];
    for (what, w) in wrapped {
        if what == "array" && leads_with_for(&e) {
            continue;
        }
        let out = run(&o, &w)?;
        let p: hcl::Expression = out.parse().map_err(|e| Fail::new("rejected", format!("in {what}: {e}\n{out}\n{w:?}")))?;
        let (got, want) = (read_expr(&p)?, read_expr(&w)?);
        ensure!(got == want, "structure", "in {what}: {out}\ngot  {got:?}\nwant {want:?}");
    }
    Ok(())
}

/// Text that starts with the keyword is read as for expression in an array.
fn leads_with_for(e: &E) -> bool {
    match e {
        E::Var(v) => v == "for",
        E::Bin(l, ..) => leads_with_for(l),
        E::Cond(c) => leads_with_for(&c.0),
        E::Trav(b, _) => leads_with_for(b),
        _ => false,
    }
}

/// Literals kept apart from markers may be nested within each other.
fn settle(mut e: E) -> E {
    loop {
        let next = norm(&map_tpls(&e, &join_markers));
        if next == e {
            return e;
        }
        e = next;
    }
}

fn c08_template(s: &mut Src, c: &mut Case) -> Res {
    let o = settings(s);
    label_settings(c, &o);
    let mut g = Gen::new(s);
    g.bare = true;
    let ts = g.elements(false, 6);
    c.nontrivial = ts.len() >= 2;
    let data = build::d_template(&ts);
    c.input = format!("{o:?}\n{data:?}");
    let go = |ts: &[T]| -> Vec<T> {
        match plain_keys(&E::Heredoc(Box::new(Hd { delim: "E".into(), flush: false, tpl: ts.to_vec() }))) {
            E::Heredoc(h) => join(&norm_tpl(&h.tpl)),
            _ => unreachable!(),
        }
    };
    let want = go(&join(&norm_tpl(&map_texpr_meaning(&ts))));
    let out = run(&o, &data)?;
    let p: hcl::Template = out.parse().map_err(|e| Fail::new("rejected", format!("{e}\n{out}\n{data:?}")))?;
    let read = |p: &hcl::Template| -> Result<Vec<T>, Fail> { Ok(go(&join(&map_elements(&reify::d_template(p).map_err(|m| Fail::new("raw-template", m))?)))) };
    let got = read(&p)?;
    ensure!(got == want, "structure", "{out:?}\ngot  {got:?}\nwant {want:?}");
    let again = run(&o, &p)?;
    stable::<hcl::Template>(&o, &out, &again, true)?;
    let shown = data.to_string();
    let plain = hcl::format::to_string(&data).map_err(|e| Fail::new("error", format!("{e}")))?;
    ensure!(shown == plain, "display", "{shown:?}\nis not\n{plain:?}");
    // As quoted string and heredoc.
    for e in [hcl::expr::TemplateExpr::QuotedString(out.clone()), hcl::expr::TemplateExpr::Heredoc(hcl::expr::Heredoc::new(hcl::Identifier::new("EOT_").unwrap(), format!("{out}\n")))] {
        let text = run(&o, &e)?;
        let p: hcl::Expression = text.parse().map_err(|x| Fail::new("rejected", format!("{x}\n{text}\n{e:?}")))?;
        let lines = matches!(e, hcl::expr::TemplateExpr::Heredoc(_));
        let (got, mut want) = (read_expr(&p)?, want.clone());
        if lines {
            want.push(T::Lit("\n".into()));
        }
        let want = same_meaning(&match lines {
            true => E::Heredoc(Box::new(Hd { delim: "EOT_".into(), flush: false, tpl: join(&norm_tpl(&want)) })),
            false => E::Tpl(want),
        });
        let (got, want) = (settle(got), settle(norm(&want)));
        ensure!(got == want, "quoted", "{text}\ngot  {got:?}\nwant {want:?}");
    }
    Ok(())
}

/// A writer that fails after a number of bytes: from then on always, or this one time.
struct Short(Vec<u8>, usize, bool);

impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1.saturating_sub(self.0.len()));
        if n == 0 && !b.is_empty() {
            if self.2 {
                self.1 = usize::MAX;
            }
            return Err(std::io::Error::other("full"));
        }
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl AsMut<Vec<u8>> for Short {
    fn as_mut(&mut self) -> &mut Vec<u8> {
        &mut self.0
    }
}

enum Any {
    Body(hcl::Body),
    Expr(hcl::Expression),
    Attr(hcl::Attribute),
    Block(hcl::Block),
    Tpl(hcl::Template),
    Val(hcl::Value),
}

impl Any {
    fn format<W: std::io::Write + AsMut<Vec<u8>>>(&self, f: &mut Formatter<W>) -> hcl::Result<String> {
        match self {
            Any::Body(x) => x.format_string(f),
            Any::Expr(x) => x.format_string(f),
            Any::Attr(x) => x.format_string(f),
            Any::Block(x) => x.format_string(f),
            Any::Tpl(x) => x.format_string(f),
            Any::Val(x) => x.format_string(f),
        }
    }
}

fn any(s: &mut Src) -> Any {
    match s.below(6) {
        0 => Any::Body(build::d_body(&Gen::new(s).body(2))),
        1 => Any::Expr(build::d_expr(&Gen::new(s).value())),
        2 => Any::Attr(hcl::Attribute::new("a", build::d_expr(&Gen::new(s).value()))),
        3 => match build::d_structure(&S::Block(Gen::new(s).block(2))) {
            hcl::Structure::Block(b) => Any::Block(b),
            _ => unreachable!(),
        },
        4 => Any::Tpl(build::d_template(&Gen::new(s).elements(false, 4))),
        _ => Any::Val(data(s, 2).real()),
    }
}

/// What a formatter writes does not depend on what it wrote before.
fn c08_reuse(s: &mut Src, c: &mut Case) -> Res {
    let o = settings(s);
    label_settings(c, &o);
    let limit = if s.chance(1, 3) { s.range(1, 60) } else { usize::MAX };
    let once = s.chance(2, 3);
    let mut f = formatter(&o, Short(Vec::new(), limit, once));
    let n = s.range(2, 5);
    let mut full = false;
    c.nontrivial = true;
    let mut show = format!("{o:?}, at most {limit} bytes{}", if once { " the first time" } else { "" });
    for _ in 0..n {
        let x = any(s);
        let want = x.format(&mut formatter(&o, Vec::new())).map_err(|e| Fail::new("error", format!("{e}")))?;
        show += &format!("\n---\n{want}");
        c.input = show.clone();
        let got = no_panic(|| x.format(&mut f)).map_err(|m| Fail::new("panic", m))?;
        match got {
            Ok(got) => ensure!(got == want, "differs", "{got:?}\nis not\n{want:?}"),
            Err(_) => {
                c.label("write-error");
                ensure!(want.len() > limit && !(full && once), "error", "error without need");
                // Nothing is left behind of the text that did not fit.
                full = true;
            }
        }
    }
    Ok(())
}

// --- C09 ------------------------------------------------------------------------------------------

fn word(s: &mut Src) -> String {
    if s.big > 0 && s.chance(1, 3) {
        // Long text with what may look like a template anywhere in it.
        let mut t = String::new();
        let mut n = 0;
        let len = s.range(20, 300);
        s.big = s.big.saturating_sub(len);
        while t.len() < len {
            n += 1;
            match s.below(6) {
                0 | 1 => t.push_str("plain text, "),
                2 => t.push_str(s.pick(&["$${", "%%{", "$$${", "$${x}", "%%{ if }"])),
                3 => t.push_str(s.pick(&["${x}", "%{ if x }y%{ endif }", "${", "%{", "}", "$", "%"])),
                4 => t.push(*s.pick(&['"', '\\', '\n', 'é', '\t', '~', '{'])),
                _ => t.push_str("0123456789abcdef"),
            }
            if n > 400 {
                break;
            }
        }
        return t;
    }
    match s.below(4) {
        0 => gen::text(s, 12),
        1 => s.pick(&["", "a", "${x}", "%{ if x }y%{ endif }", "$${x}", "\"", "\\", "\\n", "\n", "\r\n", "\r", "\t", "\0", "\u{7f}", "\u{feff}", "\u{2028}", "true", "null", "1", "for", "<<EOT\nx\nEOT\n", "# c", "a b", "$", "%", "$$", "${", "%{", "~}", "\u{1}\u{1f}", "\u{10ffff}"]).to_string(),
        2 => {
            let mut t = String::new();
            let mut n = 0;
            while s.more(n, 5, 16) {
                n += 1;
                t.push(*s.pick(&['$', '%', '{', '}', '"', '\\', '\n', 'u', 'n', ' ', 'é', '~']));
            }
            t
        }
        _ => {
            let mut t = String::new();
            let mut n = 0;
            while s.more(n, 3, 10) {
                n += 1;
                t.push(char::from_u32(s.below(0x250) as u32).unwrap());
            }
            t
        }
    }
}

fn data(s: &mut Src, depth: usize) -> V {
    match s.weighted(&[1, 2, 4, 6, if depth > 0 { 3 } else { 0 }, if depth > 0 { 4 } else { 0 }]) {
        0 => V::Null,
        1 => V::Bool(s.bool()),
        2 => {
            let mut g = Gen::new(s);
            V::Num(g.num())
        }
        3 => V::Str(word(s)),
        4 => {
            let mut l = vec![];
            while s.more(l.len(), 2, 5) {
                l.push(data(s, depth - 1));
            }
            V::Arr(l)
        }
        _ => {
            let mut m: Vec<(String, V)> = vec![];
            while s.more(m.len(), 2, 5) {
                let k = word(s);
                if m.iter().all(|(l, _)| *l != k) {
                    m.push((k, data(s, depth - 1)));
                }
            }
            V::Obj(m)
        }
    }
}

fn label_data(c: &mut Case, v: &V) {
    match v {
        V::Null => c.label("null"),
        V::Bool(_) => c.label("bool"),
        V::Num(_) => c.label("number"),
        V::Str(s) => label_text(c, s),
        V::Arr(l) => {
            c.label("list");
            l.iter().for_each(|v| label_data(c, v));
        }
        V::Obj(m) => {
            c.label("map");
            for (k, v) in m {
                label_text(c, k);
                label_data(c, v);
            }
        }
    }
}

fn label_text(c: &mut Case, s: &str) {
    c.label("string");
    if s.contains("${") || s.contains("%{") {
        c.label("marker");
        c.nontrivial = true;
    }
    if s.contains(|x: char| x.is_control()) {
        c.label("control");
        c.nontrivial = true;
    }
    if s.contains(['"', '\\']) {
        c.label("quote");
        c.nontrivial = true;
    }
}

/// An expression that consists of literals only.
fn literal(e: &hcl::Expression, v: &V) -> Result<(), String> {
    use hcl::Expression as X;
    match (e, v) {
        (X::Null, V::Null) => Ok(()),
        (X::Bool(a), V::Bool(b)) if a == b => Ok(()),
        (X::Number(a), V::Num(b)) if *a == build::num(b) => Ok(()),
        (X::String(a), V::Str(b)) if a == b => Ok(()),
        (X::Array(a), V::Arr(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|(a, b)| literal(a, b)),
        (X::Object(a), V::Obj(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|((k, a), (l, b))| {
            let same = match k {
                hcl::ObjectKey::Identifier(i) => i.as_str() == l,
                hcl::ObjectKey::Expression(X::String(s)) => s == l,
                _ => false,
            };
            if !same {
                return Err(format!("key {k:?} is not {l:?}"));
            }
            literal(a, b)
        }),
        _ => Err(format!("{e:?} is not the literal {v:?}")),
    }
}

fn json(v: &V) -> J {
    match v {
        V::Null => J::Null,
        V::Bool(b) => J::Bool(*b),
        V::Num(n) => serde_json::to_value(build::num(n)).unwrap(),
        V::Str(s) => J::String(s.clone()),
        V::Arr(l) => J::Array(l.iter().map(json).collect()),
        V::Obj(m) => J::Object(m.iter().map(|(k, v)| (k.clone(), json(v))).collect()),
    }
}

fn top(s: &mut Src) -> V {
    let mut m: Vec<(String, V)> = vec![];
    while s.more(m.len(), 2, 5) {
        let k = Gen::new(s).ident();
        if m.iter().all(|(l, _)| *l != k) {
            m.push((k, data(s, 3)));
        }
    }
    V::Obj(m)
}

fn c09_document(s: &mut Src, c: &mut Case) -> Res {
    let o = settings(s);
    label_settings(c, &o);
    let v = top(s);
    label_data(c, &v);
    c.input = format!("{o:?}\n{v:?}");
    let V::Obj(m) = &v else { unreachable!() };
    let val = v.real();
    let j = json(&v);
    let map: hcl::Map<String, hcl::Value> = m.iter().map(|(k, v)| (k.clone(), v.real())).collect();
    let tree: BTreeMap<&str, J> = m.iter().map(|(k, v)| (k.as_str(), json(v))).collect();
    let ordered: Vec<(String, V)> = tree.iter().map(|(k, _)| m.iter().find(|(l, _)| l == k).unwrap().clone()).collect();
    let body: hcl::Body = m.iter().map(|(k, v)| hcl::Attribute::new(hcl::Identifier::new(k.as_str()).unwrap(), v.real())).collect();
    let ordered = V::Obj(ordered);
    let sources: [(&str, &V, hcl::Result<String>); 7] = [
        ("value", &v, hcl::to_string(&val)),
        ("map", &v, hcl::to_string(&map)),
        ("json", &v, hcl::to_string(&j)),
        ("tree", &ordered, hcl::to_string(&tree)),
        ("body", &v, hcl::to_string(&body)),
        ("expression", &v, hcl::to_string(&hcl::Expression::from(val.clone()))),
        ("formatted", &v, {
            let mut ser = Serializer::with_formatter(formatter(&o, Vec::new()));
            ser.serialize(&val).map(|()| String::from_utf8(ser.into_inner()).unwrap())
        }),
    ];
    for (what, v, text) in sources {
        let text = text.map_err(|e| Fail::new("refused", format!("{what}: {e}")))?;
        let got: hcl::Value = hcl::from_str(&text).map_err(|e| Fail::new("rejected", format!("{what}: {e}\n{text}")))?;
        ensure!(V::of(&got) == *v, "value", "{what}: {got:?}\nis not {v:?}\n{text}");
        let got: J = hcl::from_str(&text).map_err(|e| Fail::new("rejected", format!("{what}: {e}\n{text}")))?;
        ensure!(of_json(&got) == of_json(&json(v)), "json", "{what}: {got:?}\nis not {v:?}\n{text}");
        let got: hcl::Body = hcl::from_str(&text).map_err(|e| Fail::new("rejected", format!("{what}: {e}\n{text}")))?;
        let V::Obj(m) = v else { unreachable!() };
        ensure!(got.iter().count() == m.len(), "code", "{what}: {got:?}\n{text}");
        for (a, (k, v)) in got.attributes().zip(m) {
            ensure!(a.key.as_str() == k, "code", "{what}: {} is not {k}", a.key.as_str());
            if let Err(m) = literal(&a.expr, v) {
                fail!("code", "{what}: {m}\n{text}");
            }
        }
    }
    // A key that is no identifier cannot be the name of an attribute.
    let k = word(s);
    if !hcl::Identifier::new(k.as_str()).is_ok_and(|i| i.as_str() == k) {
        let mut m = map.clone();
        m.insert(k.clone(), hcl::Value::Null);
        for (what, r) in [("map", hcl::to_string(&m)), ("expression", hcl::to_string(&hcl::Expression::from(hcl::Value::Object(m.clone()))))] {
            ensure!(r.is_err(), "key", "{what}: {k:?} is written as {r:?}");
        }
    }
    Ok(())
}

fn c09_expression(s: &mut Src, c: &mut Case) -> Res {
    let o = settings(s);
    label_settings(c, &o);
    let v = data(s, 4);
    label_data(c, &v);
    c.input = format!("{o:?}\n{v:?}");
    let val = v.real();
    let e = hcl::Expression::from(val.clone());
    let ser = hcl::to_expression(&val).map_err(|e| Fail::new("refused", format!("{e}")))?;
    for e in [&e, &ser] {
        if let Err(m) = literal(e, &v) {
            fail!("code", "{m}");
        }
        ensure!(V::of(&hcl::Value::from(e.clone())) == v, "value", "{e:?} is not {v:?}");
    }
    let back = hcl::to_value(&val).map_err(|e| Fail::new("refused", format!("{e}")))?;
    ensure!(V::of(&back) == v, "value", "{back:?} is not {v:?}");
    let back = hcl::to_value(json(&v)).map_err(|e| Fail::new("refused", format!("{e}")))?;
    ensure!(V::of(&back) == v, "value", "{back:?} is not {v:?}");
    for text in [run(&o, &e)?, e.to_string(), hcl_edit::expr::Expression::from(e.clone()).to_string()] {
        let p: hcl::Expression = text.parse().map_err(|e| Fail::new("rejected", format!("{e}\n{text}")))?;
        if let Err(m) = literal(&p, &v) {
            fail!("code", "{m}\n{text}");
        }
        let p = hcl::Value::from(p);
        ensure!(V::of(&p) == v, "value", "{p:?} is not {v:?}\n{text}");
    }
    // As block label and body.
    if let V::Str(x) = &v {
        let b = hcl::Body::builder().add_block(hcl::Block::builder("b").add_label(x.as_str()).add_attribute(("a", val.clone())).build()).build();
        let text = run(&o, &b)?;
        let p: hcl::Body = text.parse().map_err(|e| Fail::new("rejected", format!("{e}\n{text}")))?;
        ensure!(p == b, "label", "{p:?}\nis not\n{b:?}\n{text}");
    }
    Ok(())
}

/// The formatter writes strings with template syntax as templates.
fn templated(v: &V) -> bool {
    match v {
        V::Str(s) => s.contains("${") || s.contains("%{"),
        V::Arr(l) => l.iter().any(templated),
        V::Obj(m) => m.iter().any(|(_, v)| templated(v)),
        _ => false,
    }
}

/// Equal, or templates with the same meaning in the place of strings.
fn same_text(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Str(a), V::Str(b)) if a != b => {
            let read = |s: &str| s.parse::<hcl_edit::template::Template>().ok().map(|t| reify::template(&t));
            templated(&V::Str(b.clone())) && read(a).is_some_and(|t| Some(t) == read(b))
        }
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_text(a, b)),
        (V::Obj(a), V::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| k == l && same_text(a, b)),
        _ => a == b,
    }
}

fn c09_value(s: &mut Src, c: &mut Case) -> Res {
    let o = settings(s);
    label_settings(c, &o);
    let v = data(s, 3);
    label_data(c, &v);
    c.input = format!("{o:?}\n{v:?}");
    let text = run(&o, &v.real())?;
    let p: hcl::Expression = text.parse().map_err(|e| Fail::new("rejected", format!("{e}\n{text}")))?;
    if !templated(&v) {
        if let Err(m) = literal(&p, &v) {
            fail!("code", "{m}\n{text}");
        }
    }
    let got = hcl::Value::from(p.clone());
    // What was written as a template has the text of that template.
    ensure!(same_text(&V::of(&got), &v), "value", "{got:?} is not {v:?}\n{text}");
    Ok(())
}
