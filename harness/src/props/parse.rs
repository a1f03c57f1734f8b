//! C01 (lossless), C02 (robust), C03 (grammar), C04 (spans).

use super::t;
use crate::engine::{Case, Fail, Prop, Res, Test};
use crate::gen::Gen;
use crate::model::*;
use crate::mutate;
use crate::spans;
use hcl_edit::visit::Visit;
use hcl_edit::Span as _;
use crate::render::{self, Doc};
use crate::reify;
use crate::src::Src;
use crate::{ensure, fail};

pub fn add(p: &mut Vec<Prop>, ts: &mut Vec<Test>) {
    p.push(Prop { id: "C01", rule: "a generated document of at least two structures or one compound expression, whose text contains trivia, that parses" });
    ts.push(t("C01", "body", 60_000, 600_000, c01_body));
    ts.push(t("C01", "expr", 60_000, 600_000, c01_expr));
    ts.push(t("C01", "template", 40_000, 400_000, c01_template));
    ts.push(t("C01", "crlf", 10_000, 100_000, c01_crlf));
    ts.push(t("C01", "flush", 5_000, 50_000, c01_flush));
    ts.push(t("C01", "mutated", 60_000, 600_000, c01_mutated));
    ts.push(t("C01", "dupkeys", 2_000, 20_000, c01_dupkeys));
    p.push(Prop { id: "C02", rule: "an input text of at least 8 bytes (for raw bytes: one that is not UTF-8)" });
    ts.push(t("C02", "mutated", 120_000, 1_200_000, c02_mutated));
    ts.push(t("C02", "soup", 120_000, 1_200_000, c02_soup));
    ts.push(t("C02", "bytes", 40_000, 400_000, c02_bytes));
    p.push(Prop { id: "C04", rule: "a generated document of at least two structures or one compound expression (for mutated ones: still accepted)" });
    ts.push(t("C04", "body", 60_000, 600_000, c04_body));
    ts.push(t("C04", "expr", 60_000, 600_000, c04_expr));
    ts.push(t("C04", "template", 40_000, 400_000, c04_template));
    ts.push(t("C04", "reparse", 20_000, 200_000, c04_reparse));
    ts.push(t("C04", "mutated", 60_000, 600_000, c04_mutated));
    p.push(Prop { id: "C03", rule: "a generated document with a compound expression, a block or a template" });
    ts.push(t("C03", "body", 60_000, 600_000, c03_body));
    ts.push(t("C03", "expr", 60_000, 600_000, c03_expr));
    ts.push(t("C03", "template", 40_000, 400_000, c03_template));
}

// --- C02 ------------------------------------------------------------------------------------------

const MAX_DEPTH: usize = 60;

fn check_error(e: &hcl_edit::parser::Error, text: &str) -> Res {
    let shown = e.to_string();
    ensure!(!shown.is_empty() && !e.message().is_empty(), "error-empty", "empty error message");
    let l = e.location();
    let lines: Vec<&str> = text.split('\n').collect();
    ensure!(l.line() >= 1 && l.line() <= lines.len(), "error-line", "line {} of {}", l.line(), lines.len());
    let line = lines[l.line() - 1];
    ensure!(e.line() == line, "error-line-text", "quoted {:?}, line {} is {:?}", e.line(), l.line(), line);
    let start: usize = lines[..l.line() - 1].iter().map(|l| l.len() + 1).sum();
    ensure!(l.offset() <= text.len() && l.offset() >= start && l.offset() <= start + line.len(), "error-offset", "offset {} is not in line {} ({start}..{})", l.offset(), l.line(), start + line.len());
    // The column is the character the offset points to; at the end of the input it may be the one
    // after the last.
    let floor = (0..=l.offset()).rev().find(|o| text.is_char_boundary(*o)).unwrap();
    let col = text[start..floor].chars().count() + 1;
    ensure!(l.column() == col || (l.column() == col + 1 && text.len() - floor <= 4 && text[floor..].chars().count() == 1), "error-column", "column {} but offset {} is character {col} of line {line:?}", l.column(), l.offset());
    ensure!(l.column() <= line.chars().count() + 2, "error-column", "column {} of {line:?}", l.column());
    ensure!(shown.contains(line) && shown.contains(&format!("line {}, column {}", l.line(), l.column())), "error-display", "{shown}");
    // The caret of the message stands below the quoted character.
    let shown: Vec<&str> = shown.split('\n').collect();
    let quoted = format!("{} | {line}", l.line());
    let pos = shown.iter().position(|s| *s == quoted);
    let caret = pos.and_then(|p| shown.get(p + 1)).and_then(|s| s.find('^')).unwrap_or(0);
    ensure!(caret + 1 == format!("{} | ", l.line()).len() + l.column(), "error-caret", "{shown:?}");
    Ok(())
}

fn keyless(b: &[S]) -> bool {
    let mut bad = false;
    walk_body(b, &mut |e| {
        if let E::Obj(items) = e {
            for (k, _) in items {
                let K::Ex(mut k) = k.clone() else { continue };
                while let E::Paren(p) = k {
                    k = *p;
                }
                bad |= matches!(k, E::Null | E::Arr(_) | E::Obj(_));
            }
        }
    });
    bad
}

/// Every entry point returns; those for the same kind of text agree.
fn c02_check(text: &str, c: &mut Case) -> Res {
    if mutate::depth(text) > MAX_DEPTH {
        c.discard = true;
        return Ok(());
    }
    let pb = hcl_edit::parser::parse_body(text);
    let pe = hcl_edit::parser::parse_expr(text);
    let pt = hcl_edit::parser::parse_template(text);
    for e in [pb.as_ref().err(), pe.as_ref().err(), pt.as_ref().err()].into_iter().flatten() {
        check_error(e, text)?;
    }
    c.label(if pb.is_ok() { "body-accepted" } else { "body-rejected" });
    c.label(if pe.is_ok() { "expr-accepted" } else { "expr-rejected" });
    c.label(if pt.is_ok() { "template-accepted" } else { "template-rejected" });
    let same = |what: &str, a: bool, b: bool, detail: String| -> Res {
        ensure!(a == b, "entry-points-disagree", "{what}: the parser {} but this {}: {detail}", if a { "accepts" } else { "rejects" }, if b { "accepts" } else { "rejects" });
        Ok(())
    };
    let err = |e: Option<String>| e.unwrap_or_default();
    let r = text.parse::<hcl_edit::structure::Body>();
    ensure!(r == pb, "entry-points-disagree", "FromStr of the editing body differs");
    let r = text.parse::<hcl_edit::expr::Expression>();
    ensure!(r == pe, "entry-points-disagree", "FromStr of the editing expression differs");
    let r = text.parse::<hcl_edit::template::Template>();
    ensure!(r == pt, "entry-points-disagree", "FromStr of the editing template differs");
    let r = hcl::parse(text);
    same("hcl::parse", pb.is_ok(), r.is_ok(), err(r.as_ref().err().map(|e| e.to_string())))?;
    let b = hcl::from_str::<hcl::Body>(text);
    same("from_str::<Body>", pb.is_ok(), b.is_ok(), err(b.as_ref().err().map(|e| e.to_string())))?;
    let b = hcl::from_slice::<hcl::Body>(text.as_bytes());
    same("from_slice::<Body>", pb.is_ok(), b.is_ok(), err(b.as_ref().err().map(|e| e.to_string())))?;
    let b = hcl::from_reader::<hcl::Body, _>(text.as_bytes());
    same("from_reader::<Body>", pb.is_ok(), b.is_ok(), err(b.as_ref().err().map(|e| e.to_string())))?;
    let v = hcl::from_str::<hcl::Value>(text);
    // Null, arrays and objects are no keys: only the evaluation may complain about them, but a plain
    // value cannot have them.
    if !pb.as_ref().is_ok_and(|b| keyless(&reify::body(b))) {
        same("from_str::<Value>", pb.is_ok(), v.is_ok(), err(v.as_ref().err().map(|e| e.to_string())))?;
    }
    if let (Err(hcl::Error::Parse(a)), Err(b)) = (&r, &pb) {
        ensure!(a == b, "entry-points-disagree", "errors differ: {a} / {b}");
    }
    let r = text.parse::<hcl::Expression>();
    same("Expression::from_str", pe.is_ok(), r.is_ok(), err(r.as_ref().err().map(|e| e.to_string())))?;
    let r = text.parse::<hcl::Template>();
    same("Template::from_str", pt.is_ok(), r.is_ok(), err(r.as_ref().err().map(|e| e.to_string())))?;
    let q = hcl::expr::TemplateExpr::from(text);
    let _ = hcl::Template::from_expr(&q);
    // Whatever was accepted can be printed and looked at.
    if let Ok(b) = &pb {
        let _ = (b.to_string(), format!("{b:?}").len());
    }
    if let Ok(e) = &pe {
        let _ = e.to_string();
    }
    if let Ok(t) = &pt {
        let _ = t.to_string();
    }
    c.input = text.to_string();
    c.nontrivial = text.len() >= 8;
    Ok(())
}

fn c02_mutated(s: &mut Src, c: &mut Case) -> Res {
    let (text, kind) = match s.below(3) {
        0 => {
            let crlf = s.chance(1, 4);
            (doc(s, c, crlf, false).1.text, "from-body")
        }
        1 => (ex(s, c, false).1.text, "from-expr"),
        _ => (tpl(s, c, false).1.text, "from-template"),
    };
    let text = mutate::mutate(s, &text);
    c.labels.clear();
    c.label(kind);
    c.nontrivial = false;
    c.input = text.clone();
    c02_check(&text, c)
}

fn c02_soup(s: &mut Src, c: &mut Case) -> Res {
    let text = mutate::soup(s);
    c.input = text.clone();
    c02_check(&text, c)
}

/// Bytes that may not be UTF-8.
fn c02_bytes(s: &mut Src, c: &mut Case) -> Res {
    let mut bytes = mutate::soup(s).into_bytes();
    let n = s.below(4);
    for _ in 0..n {
        if bytes.is_empty() {
            break;
        }
        let i = s.below(bytes.len());
        bytes[i] = s.draw(256) as u8;
    }
    c.input = format!("{bytes:?}");
    let text = std::str::from_utf8(&bytes).ok();
    c.nontrivial = text.is_none() && bytes.len() > 4;
    if mutate::depth(&String::from_utf8_lossy(&bytes)) > MAX_DEPTH {
        c.discard = true;
        return Ok(());
    }
    c.label(if text.is_some() { "utf8" } else { "not-utf8" });
    let want = text.is_some_and(|t| hcl_edit::parser::parse_body(t).is_ok());
    let a = hcl::from_slice::<hcl::Body>(&bytes);
    let b = hcl::from_reader::<hcl::Body, _>(&bytes[..]);
    ensure!(a.is_ok() == want && b.is_ok() == want, "entry-points-disagree", "want {want}, slice {:?}, reader {:?}", a.err().map(|e| e.to_string()), b.err().map(|e| e.to_string()));
    Ok(())
}

// --- C04 ------------------------------------------------------------------------------------------

fn c04_compare(nodes: &[spans::Node], d: &Doc) -> Res {
    if let Err(m) = spans::check(nodes, &d.text) {
        fail!("structure", "{m}");
    }
    let mut got: Vec<(usize, usize, &str)> = nodes.iter().filter(|n| n.kind != "scalar").map(|n| (n.span.unwrap().0, n.span.unwrap().1, n.kind)).collect();
    let mut want: Vec<(usize, usize, &str)> = d.recs.iter().map(|r| (r.start, r.end, r.kind)).collect();
    got.sort_unstable();
    want.sort_unstable();
    if got != want {
        let a: Vec<_> = got.iter().filter(|g| !want.contains(g)).map(|g| (g, d.text.get(g.0..g.1))).collect();
        let b: Vec<_> = want.iter().filter(|w| !got.contains(w)).map(|g| (g, d.text.get(g.0..g.1))).collect();
        fail!("span", "reported but not written there: {a:?}; written but not reported: {b:?}");
    }
    // A scalar has the span of the expression it is.
    for n in nodes.iter().filter(|n| n.kind == "scalar") {
        let p = n.parent.unwrap();
        ensure!(nodes[p].span == n.span, "span", "scalar {:?} in {:?}", n.span, nodes[p]);
    }
    Ok(())
}

fn c04_body(s: &mut Src, c: &mut Case) -> Res {
    let crlf = s.chance(1, 5);
    let (_, d) = doc(s, c, crlf, false);
    let p = hcl_edit::parser::parse_body(&d.text).map_err(|e| Fail::new("reject", format!("{e}")))?;
    let mut v = spans::Spans::default();
    v.visit_body(&p);
    c04_compare(&v.nodes, &d)
}

fn c04_expr(s: &mut Src, c: &mut Case) -> Res {
    let (_, d) = ex(s, c, false);
    let p = hcl_edit::parser::parse_expr(&d.text).map_err(|e| Fail::new("reject", format!("{e}")))?;
    let mut v = spans::Spans::default();
    v.visit_expr(&p);
    c04_compare(&v.nodes, &d)
}

fn c04_template(s: &mut Src, c: &mut Case) -> Res {
    let (_, d) = tpl(s, c, false);
    let p = hcl_edit::parser::parse_template(&d.text).map_err(|e| Fail::new("reject", format!("{e}")))?;
    let mut v = spans::Spans::default();
    v.visit_template(&p);
    c04_compare(&v.nodes, &d)
}

struct Cut<'a> {
    text: &'a str,
    res: Res,
    n: usize,
}

impl Visit for Cut<'_> {
    fn visit_expr(&mut self, node: &hcl_edit::expr::Expression) {
        if self.res.is_err() {
            return;
        }
        let Some(r) = node.span() else {
            self.res = Err(Fail::new("no-span", format!("{node:?}")));
            return;
        };
        self.n += 1;
        let cut = &self.text[r];
        // Line breaks have to be allowed: the expression may have come from within brackets.
        match hcl_edit::parser::parse_expr(&format!("(\n{cut}\n)")) {
            Ok(hcl_edit::expr::Expression::Parenthesis(p)) => {
                let (a, b) = (reify::expr(p.inner()), reify::expr(node));
                if a != b {
                    self.res = Err(Fail::new("reparse", format!("{cut:?} parses to {a:?}, not {b:?}")));
                }
            }
            Ok(o) => self.res = Err(Fail::new("reparse", format!("{cut:?} parses to {o:?}"))),
            Err(e) => self.res = Err(Fail::new("reparse", format!("{cut:?}: {e}"))),
        }
        hcl_edit::visit::visit_expr(self, node);
    }
}

/// The text cut out for each expression parses to that expression.
fn c04_reparse(s: &mut Src, c: &mut Case) -> Res {
    let (_, d) = doc(s, c, false, false);
    let p = hcl_edit::parser::parse_body(&d.text).map_err(|e| Fail::new("reject", format!("{e}")))?;
    let mut v = Cut { text: &d.text, res: Ok(()), n: 0 };
    v.visit_body(&p);
    c.nontrivial = v.n >= 3;
    v.res
}

/// Documents nobody wrote on purpose.
fn c04_mutated(s: &mut Src, c: &mut Case) -> Res {
    let (_, d) = doc(s, c, false, false);
    let text = mutate::mutate(s, &d.text);
    c.input = text.clone();
    c.nontrivial = false;
    if mutate::depth(&text) > MAX_DEPTH {
        c.discard = true;
        return Ok(());
    }
    let Ok(p) = hcl_edit::parser::parse_body(&text) else {
        c.label("rejected");
        return Ok(());
    };
    c.label("accepted");
    c.nontrivial = text.len() > 12;
    let mut v = spans::Spans::default();
    v.visit_body(&p);
    if let Err(m) = spans::check(&v.nodes, &text) {
        // The value of a key that is given twice is the last one, at the place of the first.
        if m.contains("overlaps its predecessor in object") {
            c.excluded.push("object-with-duplicate-key");
            return Ok(());
        }
        fail!("structure", "{m}");
    }
    for n in &v.nodes {
        let cut = &text[n.span.unwrap().0..n.span.unwrap().1];
        if n.kind == "ident" || n.kind == "variable" {
            ensure!(hcl_edit::Ident::try_new(cut).is_ok(), "ident", "{cut:?} is no identifier");
        }
    }
    let mut v = Cut { text: &text, res: Ok(()), n: 0 };
    v.visit_body(&p);
    v.res
}

/// Mutated documents that are still accepted print as they are, up to the spelling of escapes.
fn c01_mutated(s: &mut Src, c: &mut Case) -> Res {
    let (_, d) = doc(s, c, false, true);
    let text = mutate::mutate(s, &d.text);
    c.input = text.clone();
    c.nontrivial = false;
    if mutate::depth(&text) > MAX_DEPTH {
        c.discard = true;
        return Ok(());
    }
    // Known findings.
    if text.contains('\r') {
        c.excluded.push("carriage-return");
        return Ok(());
    }
    if text.contains("<<-") {
        c.excluded.push("flush-heredoc");
        return Ok(());
    }
    let Ok(p) = hcl_edit::parser::parse_body(&text) else {
        c.label("rejected");
        return Ok(());
    };
    c.label("accepted");
    c.nontrivial = text.len() > 12 && text != d.text;
    let out = p.to_string();
    if unescape_all(&out) != unescape_all(&text) {
        // Objects that define a key twice lose an item (a known finding).
        let mut objects = false;
        walk_body(&reify::body(&p), &mut |e| objects |= matches!(e, E::Obj(_)));
        if objects && out.len() < text.len() {
            c.excluded.push("object-with-duplicate-key");
            return Ok(());
        }
        fail!("differs", "printed: {out:?}\nsource:  {text:?}");
    }
    Ok(())
}

/// Objects that define a key more than once.
fn c01_dupkeys(s: &mut Src, c: &mut Case) -> Res {
    let mut keys: Vec<&str> = Vec::new();
    while s.more(keys.len(), 3, 5) {
        keys.push(*s.pick(&["a", "b", "\"a\"", "1", "(a)"]));
    }
    let items: Vec<String> = keys.iter().enumerate().map(|(i, k)| format!("{k} = {i}")).collect();
    let text = format!("x = {{ {} }}\n", items.join(", "));
    c.input = text.clone();
    c.nontrivial = keys.len() >= 2;
    let p = hcl_edit::parser::parse_body(&text).map_err(|e| Fail::new("reject", format!("{e}")))?;
    let out = p.to_string();
    if out == text {
        return Ok(());
    }
    let mut u = keys.clone();
    u.sort_unstable();
    u.dedup();
    ensure!(u.len() < keys.len(), "differs", "printed: {out:?}\nsource:  {text:?}");
    fail!("duplicate-key-dropped", "printed: {out:?}\nsource:  {text:?}")
}

/// Replace escape sequences by what they stand for, wherever they are.
fn unescape_all(t: &str) -> String {
    let mut out = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    let hex = |a: usize, n: usize| -> Option<char> {
        let d: String = cs.get(a..a + n)?.iter().collect();
        char::from_u32(u32::from_str_radix(&d, 16).ok()?)
    };
    while i < cs.len() {
        let c = cs[i];
        let next = cs.get(i + 1).copied();
        let (r, n) = match (c, next) {
            ('\\', Some('n')) => ('\n', 2),
            ('\\', Some('r')) => ('\r', 2),
            ('\\', Some('t')) => ('\t', 2),
            ('\\', Some('b')) => ('\u{8}', 2),
            ('\\', Some('f')) => ('\u{c}', 2),
            ('\\', Some(k @ ('"' | '\\' | '/'))) => (k, 2),
            ('\\', Some('u')) => hex(i + 2, 4).map_or((c, 1), |h| (h, 6)),
            ('\\', Some('U')) => hex(i + 2, 8).map_or((c, 1), |h| (h, 10)),
            _ => (c, 1),
        };
        out.push(r);
        i += n;
    }
    while out.contains("$${") || out.contains("%%{") {
        out = out.replace("$${", "${").replace("%%{", "%{");
    }
    out
}

pub fn labels(c: &mut Case, e: &E) {
    walk(e, &mut |e| c.label(kind(e)));
}

pub fn labels_body(c: &mut Case, b: &[S]) {
    walk_body(b, &mut |e| c.label(kind(e)));
    if b.iter().any(|s| matches!(s, S::Block(_))) {
        c.label("block");
    }
}

pub fn compound(e: &E) -> bool {
    let mut n = 0;
    walk(e, &mut |_| n += 1);
    n >= 3
}

pub fn doc(s: &mut Src, c: &mut Case, crlf: bool, plain_flush: bool) -> (Vec<S>, Doc) {
    let mut g = Gen::new(s);
    g.plain_flush = plain_flush;
    g.crlf = crlf;
    let b = g.body(3);
    let d = render::render_body(s, &b, crlf);
    labels_body(c, &b);
    c.nontrivial = b.len() >= 2 && d.text.len() > 12;
    c.input = d.text.clone();
    (b, d)
}

pub fn ex(s: &mut Src, c: &mut Case, plain_flush: bool) -> (E, Doc) {
    let mut g = Gen::new(s);
    g.plain_flush = plain_flush;
    let e = g.expr();
    let d = render::render_expr(s, &e);
    labels(c, &e);
    c.nontrivial = compound(&e);
    c.input = d.text.clone();
    (e, d)
}

pub fn tpl(s: &mut Src, c: &mut Case, plain_flush: bool) -> (Vec<T>, Doc) {
    let mut g = Gen::new(s);
    g.plain_flush = plain_flush;
    let mut ts = g.elements(true, 6);
    if g.s.chance(1, 6) {
        ts = crate::gen::map_lits(&ts, &|l| l.replace('\n', "\r\n"));
    }
    let d = render::render_tpl(s, &ts);
    walk_tpl(&ts, &mut |e| c.label(kind(e)));
    c.nontrivial = ts.len() >= 2;
    c.input = d.text.clone();
    (ts, d)
}

fn c01_body(s: &mut Src, c: &mut Case) -> Res {
    let (_, d) = doc(s, c, false, true);
    let b = hcl_edit::parser::parse_body(&d.text).map_err(|e| Fail::new("reject", format!("{e}")))?;
    let out = b.to_string();
    ensure!(d.same(&out), "differs", "printed: {out:?}\nsource:  {:?}", d.text);
    Ok(())
}

fn c01_expr(s: &mut Src, c: &mut Case) -> Res {
    let (_, d) = ex(s, c, true);
    let b = hcl_edit::parser::parse_expr(&d.text).map_err(|e| Fail::new("reject", format!("{e}")))?;
    let out = b.to_string();
    ensure!(d.same(&out), "differs", "printed: {out:?}\nsource:  {:?}", d.text);
    Ok(())
}

fn c01_template(s: &mut Src, c: &mut Case) -> Res {
    let (_, d) = tpl(s, c, true);
    let b = hcl_edit::parser::parse_template(&d.text).map_err(|e| Fail::new("reject", format!("{e}")))?;
    let out = b.to_string();
    ensure!(d.same(&out), "differs", "printed: {out:?}\nsource:  {:?}", d.text);
    Ok(())
}


/// Line breaks are normalised when printing: a known finding. Everything else has to survive.
fn c01_crlf(s: &mut Src, c: &mut Case) -> Res {
    let (_, d) = doc(s, c, true, true);
    c.nontrivial &= d.text.contains("\r\n");
    let b = hcl_edit::parser::parse_body(&d.text).map_err(|e| Fail::new("reject", format!("{e}")))?;
    let out = b.to_string();
    if d.same(&out) {
        return Ok(());
    }
    // The rendered text with every line break normalised, literal text untouched.
    let (a, b) = (out.replace("\r\n", "\n"), d.lf());
    ensure!(b.same(&a), "differs", "printed: {out:?}\nsource:  {:?}", d.text);
    fail!("crlf-becomes-lf", "printed: {out:?}\nsource:  {:?}", d.text)
}

/// Flush heredocs: indentation is printed as spaces and lines that consist of nothing but the
/// common indentation as empty lines (a known finding). Everything else has to survive.
fn c01_flush(s: &mut Src, c: &mut Case) -> Res {
    let mut lines = Vec::new();
    while s.more(lines.len(), 4, 8) {
        let n = s.below(4);
        let mut l: String = (0..n).map(|_| *s.pick(&[' ', ' ', ' ', '\t', '\u{a0}'])).collect();
        if s.chance(2, 3) {
            l.push_str(*s.pick(&["x", "${a}", "x y ", "%{ if a }b%{ endif }", "é", "}"]));
        }
        lines.push(l);
    }
    if lines.is_empty() {
        lines.push(String::new());
    }
    let wrap = |ls: &[String]| format!("a = <<-EOT\n{}\n  EOT\n", ls.join("\n"));
    let text = wrap(&lines);
    c.input = text.clone();
    c.nontrivial = lines.len() >= 2;
    let b = hcl_edit::parser::parse_body(&text).map_err(|e| Fail::new("reject", format!("{e}")))?;
    let out = b.to_string();
    if out == text {
        return Ok(());
    }
    let ind = |l: &str| l.chars().take_while(|c| c.is_whitespace()).count();
    let n = lines.iter().filter(|l| !l.is_empty()).map(|l| ind(l)).min().unwrap_or(0);
    let rest: Vec<String> = lines.iter().map(|l| l.chars().skip(n).collect()).collect();
    // Empty lines are padded if the other lines have further indentation that has to stay.
    let pad = rest.iter().filter(|l| !l.is_empty()).map(|l| ind(l)).min().is_some_and(|m| m > 0);
    let known: Vec<String> = rest
        .iter()
        .map(|rest| if rest.is_empty() && !pad { String::new() } else { format!("{}{rest}", " ".repeat(n)) })
        .collect();
    ensure!(out == wrap(&known), "differs", "printed: {out:?}\nsource:  {text:?}");
    fail!("indentation-normalised", "printed: {out:?}\nsource:  {text:?}")
}

fn c03_body(s: &mut Src, c: &mut Case) -> Res {
    let crlf = s.chance(1, 4);
    let (b, d) = doc(s, c, crlf, false);
    let p = match hcl_edit::parser::parse_body(&d.text) {
        Ok(p) => p,
        Err(e) => fail!("reject", "valid document rejected: {e}"),
    };
    let got = reify::body(&p);
    let want = norm_body(&b);
    ensure!(got == want, "structure", "got:  {got:?}\nwant: {want:?}");
    Ok(())
}

fn c03_expr(s: &mut Src, c: &mut Case) -> Res {
    let (e, d) = ex(s, c, false);
    let p = match hcl_edit::parser::parse_expr(&d.text) {
        Ok(p) => p,
        Err(e) => fail!("reject", "valid expression rejected: {e}"),
    };
    let got = reify::expr(&p);
    let want = norm(&e);
    ensure!(got == want, "structure", "got:  {got:?}\nwant: {want:?}");
    Ok(())
}

fn c03_template(s: &mut Src, c: &mut Case) -> Res {
    let (ts, d) = tpl(s, c, false);
    let p = match hcl_edit::parser::parse_template(&d.text) {
        Ok(p) => p,
        Err(e) => fail!("reject", "valid template rejected: {e}"),
    };
    let got = reify::template(&p);
    let want = norm_tpl(&ts);
    ensure!(got == want, "structure", "got:  {got:?}\nwant: {want:?}");
    Ok(())
}
