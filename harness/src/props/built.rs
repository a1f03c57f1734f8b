//! C05: what was built through the editing API prints as text that parses back to it.
//! C17: the editing and the data model describe the same document.

use crate::engine::{no_panic, Case, Fail, Prop, Res, Test};
use crate::gen::Gen;
use crate::geneval::{self, Eg};
use crate::model::*;
use crate::props::parse::{compound, doc, ex, labels, labels_body, tpl};
use crate::props::t;
use crate::src::Src;
use crate::{build, ensure, fail, reify};
use hcl::eval::Evaluate;
use hcl_edit::expr as ee;
use hcl_edit::structure as es;
use hcl_edit::template as et;
use hcl_edit::visit_mut::{self, VisitMut};
use hcl_edit::{Decorate, Decorated, Ident};

pub fn add(p: &mut Vec<Prop>, ts: &mut Vec<Test>) {
    p.push(Prop { id: "C05", rule: "a built document of at least two structures, or an expression of at least three nodes, or a template of two elements" });
    ts.push(t("C05", "body", 60_000, 600_000, c05_body));
    ts.push(t("C05", "expr", 60_000, 600_000, c05_expr));
    ts.push(t("C05", "template", 60_000, 600_000, c05_template));
    ts.push(t("C05", "decorated", 40_000, 400_000, c05_decorated));
    p.push(Prop { id: "C17", rule: "a document of at least two structures, or an expression of at least three nodes, or a template of two elements" });
    ts.push(t("C17", "document", 40_000, 400_000, c17_document));
    ts.push(t("C17", "data", 40_000, 400_000, c17_data));
    ts.push(t("C17", "expr", 40_000, 400_000, c17_expr));
    ts.push(t("C17", "template", 40_000, 400_000, c17_template));
    ts.push(t("C17", "evaluation", 40_000, 400_000, c17_evaluation));
}

fn gen_body(s: &mut Src, c: &mut Case) -> Vec<S> {
    let b = Gen::new(s).body(3);
    labels_body(c, &b);
    c.nontrivial = b.len() >= 2;
    b
}

fn gen_expr(s: &mut Src, c: &mut Case) -> E {
    let e = Gen::new(s).value();
    labels(c, &e);
    c.nontrivial = compound(&e);
    e
}

fn gen_tpl(s: &mut Src, c: &mut Case, bare: bool) -> Vec<T> {
    let mut g = Gen::new(s);
    g.bare = bare;
    let ts = g.elements(false, 6);
    c.nontrivial = ts.len() >= 2;
    ts
}

fn c05_body(s: &mut Src, c: &mut Case) -> Res {
    let b = gen_body(s, c);
    let built = build::body(&b);
    c.input = format!("{b:?}");
    let out = built.to_string();
    let p: es::Body = out.parse().map_err(|e| Fail::new("rejected", format!("{out:?} {e}")))?;
    let (got, want) = (map_body(&reify::body(&p), &meaning_read), map_body(&b, &meaning));
    ensure!(norm_body(&got) == norm_body(&want), "structure", "prints {out:?}\ngot  {got:?}\nwant {want:?}");
    // What was built describes the same as what was asked for.
    let own = map_body(&reify::body(&built), &meaning_read);
    ensure!(norm_body(&own) == norm_body(&want), "built", "built {own:?}\nwant {want:?}");
    let again = p.to_string();
    ensure!(again == out, "unstable", "prints {out:?}, then {again:?}");
    Ok(())
}

fn c05_expr(s: &mut Src, c: &mut Case) -> Res {
    let e = gen_expr(s, c);
    let built = build::expr(&e);
    c.input = format!("{e:?}");
    let out = built.to_string();
    let p: ee::Expression = out.parse().map_err(|e| Fail::new("rejected", format!("{out:?} {e}")))?;
    let (got, want) = (meaning_read(&reify::expr(&p)), meaning(&e));
    ensure!(got == want, "structure", "prints {out:?}\ngot  {got:?}\nwant {want:?}");
    // Within an attribute.
    let b: es::Body = es::Body::builder().attribute(es::Attribute::new(Ident::new("a"), built.clone())).build();
    let out = b.to_string();
    let p: es::Body = out.parse().map_err(|e| Fail::new("rejected", format!("{out:?} {e}")))?;
    let Some(a) = p.get_attribute("a") else { fail!("structure", "no attribute in {out:?}") };
    let got = meaning_read(&reify::expr(&a.value));
    ensure!(p.len() == 1 && got == want, "structure", "prints {out:?}\ngot  {got:?}\nwant {want:?}");
    Ok(())
}

fn c05_template(s: &mut Src, c: &mut Case) -> Res {
    let bare = s.bool();
    let ts = gen_tpl(s, c, bare);
    c.input = format!("{ts:?}");
    let want = join(&norm_tpl(&map_texpr_meaning(&ts)));
    if bare {
        let built = build::template(&ts);
        let out = built.to_string();
        let p: et::Template = out.parse().map_err(|e| Fail::new("rejected", format!("{out:?} {e}")))?;
        let got = join(&map_elements(&reify::template(&p)));
        ensure!(got == want, "structure", "prints {out:?}\ngot  {got:?}\nwant {want:?}");
    } else {
        let built: et::StringTemplate = ts.iter().map(build::element).collect();
        let out = ee::Expression::from(built).to_string();
        let p: ee::Expression = out.parse().map_err(|e| Fail::new("rejected", format!("{out:?} {e}")))?;
        let got = match reify::expr(&p) {
            E::Tpl(ts) => join(&map_elements(&ts)),
            E::Str(s) if s.is_empty() => vec![],
            E::Str(s) => vec![T::Lit(s)],
            e => fail!("structure", "prints {out:?}, which is {e:?}"),
        };
        ensure!(got == want, "structure", "prints {out:?}\ngot  {got:?}\nwant {want:?}");
    }
    Ok(())
}

pub fn join(ts: &[T]) -> Vec<T> {
    join_markers(merge(ts))
}

pub fn map_texpr_meaning(ts: &[T]) -> Vec<T> {
    match meaning(&E::Heredoc(Box::new(Hd { delim: "E".into(), flush: false, tpl: ts.to_vec() }))) {
        E::Heredoc(h) => h.tpl,
        _ => unreachable!(),
    }
}

pub fn map_elements(ts: &[T]) -> Vec<T> {
    match meaning_read(&E::Heredoc(Box::new(Hd { delim: "E".into(), flush: false, tpl: ts.to_vec() }))) {
        E::Heredoc(h) => h.tpl,
        _ => unreachable!(),
    }
}

// --- Trivia ---------------------------------------------------------------------------------------

/// Gives every part of a document some white space and comments.
struct Decorator<'a> {
    s: &'a mut Src,
    /// Line breaks have no meaning here.
    ml: bool,
}

// Comments start with a space as they may follow a `/` operator.
const INLINE: [&str; 7] = [" ", "", "  ", "\t", " /**/", " /* x */ ", " /* \"${ */ "];
const MULTI: [&str; 10] = [" ", "", "\n", "\n\n  ", " /**/", " // }\n", "# \" ${\n", "\r\n", " /*\n*/", " \t"];

impl Decorator<'_> {
    fn trivia(&mut self) -> &'static str {
        if self.ml {
            self.s.pick(&MULTI)
        } else {
            self.s.pick(&INLINE)
        }
    }
    fn decor(&mut self, d: &mut hcl_edit::Decor) {
        if self.s.chance(1, 3) {
            d.set_prefix(self.trivia());
        }
        if self.s.chance(1, 3) {
            d.set_suffix(self.trivia());
        }
    }
    fn within(&mut self, ml: bool, f: impl FnOnce(&mut Self)) {
        let old = std::mem::replace(&mut self.ml, ml);
        f(self);
        self.ml = old;
    }
}

impl VisitMut for Decorator<'_> {
    fn visit_body_mut(&mut self, node: &mut es::Body) {
        let oneline = node.prefer_oneline();
        for mut st in node.iter_mut() {
            let heredoc = matches!(st.as_attribute(), Some(a) if matches!(a.value, ee::Expression::HeredocTemplate(_)));
            if oneline {
                continue;
            }
            if self.s.chance(1, 3) {
                st.decor_mut().set_prefix(*self.s.pick(&["  ", "\n", "# c\n", "/* c */ ", "\n\n// \"\n  "]));
            }
            if self.s.chance(1, 4) && !heredoc {
                st.decor_mut().set_suffix(*self.s.pick(&[" # c", " // c", "  ", "/* c */"]));
            }
        }
        visit_mut::visit_body_mut(self, node);
    }
    fn visit_block_mut(&mut self, node: &mut es::Block) {
        if self.s.chance(1, 3) {
            node.ident.decor_mut().set_suffix(*self.s.pick(&INLINE));
        }
        for l in &mut node.labels {
            if self.s.chance(1, 3) {
                l.decor_mut().set_suffix(*self.s.pick(&INLINE));
            }
        }
        self.visit_body_mut(&mut node.body);
    }
    fn visit_attr_mut(&mut self, mut node: es::AttributeMut) {
        if self.s.chance(1, 3) {
            node.key_decor_mut().set_suffix(*self.s.pick(&INLINE));
        }
        self.within(false, |v| {
            v.visit_expr_mut(node.value_mut());
        });
    }
    fn visit_expr_mut(&mut self, e: &mut ee::Expression) {
        if matches!(e, ee::Expression::HeredocTemplate(_)) {
            // Nothing but a line break may follow in most places.
            if self.s.chance(1, 3) {
                e.decor_mut().set_prefix(self.trivia());
            }
        } else {
            let mut d = e.decor().clone();
            self.decor(&mut d);
            *e.decor_mut() = d;
        }
        match e {
            ee::Expression::Array(a) => self.within(true, |v| {
                for i in 0..a.len() {
                    v.visit_expr_mut(a.get_mut(i).unwrap());
                }
                let heredoc = matches!(a.iter().last(), Some(ee::Expression::HeredocTemplate(_)));
                if v.s.chance(1, 4) && !heredoc {
                    a.set_trailing(v.trivia());
                    a.set_trailing_comma(!a.is_empty() && v.s.bool());
                }
            }),
            ee::Expression::Object(o) => self.within(true, |v| {
                let last = o.len().saturating_sub(1);
                for (i, (mut k, val)) in o.iter_mut().enumerate() {
                    let mut d = k.decor().clone();
                    v.within(false, |v| v.decor(&mut d));
                    if v.s.chance(1, 4) {
                        d.set_prefix(v.trivia());
                    }
                    *k.decor_mut() = d;
                    let heredoc = matches!(val.expr(), ee::Expression::HeredocTemplate(_));
                    v.within(false, |v| v.visit_expr_mut(val.expr_mut()));
                    if !heredoc {
                        let t = *v.s.pick(&[ee::ObjectValueTerminator::Comma, ee::ObjectValueTerminator::Newline, ee::ObjectValueTerminator::None]);
                        if i < last || v.s.bool() {
                            val.set_terminator(t);
                        }
                    }
                    if v.s.bool() {
                        val.set_assignment(*v.s.pick(&[ee::ObjectValueAssignment::Colon, ee::ObjectValueAssignment::Equals]));
                    }
                }
                if v.s.chance(1, 4) {
                    o.set_trailing(v.trivia());
                }
            }),
            ee::Expression::Parenthesis(p) => self.visit_parenthesis_mut(p),
            ee::Expression::FuncCall(f) => {
                let FuncParts { name, args } = parts(f);
                for n in &mut name.namespace {
                    self.plain(n);
                }
                self.plain(&mut name.name);
                self.within(true, |v| {
                    for a in args.iter_mut() {
                        v.visit_expr_mut(a);
                    }
                });
            }
            ee::Expression::ForExpr(f) => self.within(true, |v| {
                let d = f.intro.decor().clone();
                let _ = d;
                if let Some(k) = &mut f.intro.key_var {
                    v.deco(k);
                }
                v.deco(&mut f.intro.value_var);
                v.visit_expr_mut(&mut f.intro.collection_expr);
                if let Some(k) = &mut f.key_expr {
                    v.visit_expr_mut(k);
                }
                v.visit_expr_mut(&mut f.value_expr);
                if let Some(c) = &mut f.cond {
                    v.visit_expr_mut(&mut c.expr);
                }
            }),
            ee::Expression::StringTemplate(t) => {
                for e in t.iter_mut() {
                    self.visit_element_mut(e);
                }
            }
            ee::Expression::Traversal(tr) => {
                self.visit_expr_mut(&mut tr.expr);
                for o in &mut tr.operators {
                    self.deco(o);
                    match o.value_mut() {
                        ee::TraversalOperator::Index(e) => self.within(true, |v| v.visit_expr_mut(e)),
                        ee::TraversalOperator::GetAttr(i) => self.deco(i),
                        ee::TraversalOperator::AttrSplat(x) => self.deco(x),
                        ee::TraversalOperator::FullSplat(x) => self.deco(x),
                        ee::TraversalOperator::LegacyIndex(x) => self.deco(x),
                    }
                }
            }
            ee::Expression::BinaryOp(b) => {
                self.visit_expr_mut(&mut b.lhs_expr);
                self.deco(&mut b.operator);
                self.visit_expr_mut(&mut b.rhs_expr);
            }
            e => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_parenthesis_mut(&mut self, p: &mut ee::Parenthesis) {
        self.within(true, |v| v.visit_expr_mut(p.inner_mut()));
    }
    fn visit_interpolation_mut(&mut self, i: &mut et::Interpolation) {
        self.within(true, |v| v.visit_expr_mut(&mut i.expr));
    }
    fn visit_directive_mut(&mut self, d: &mut et::Directive) {
        self.within(true, |v| visit_mut::visit_directive_mut(v, d));
    }
}

struct FuncParts<'a> {
    name: &'a mut ee::FuncName,
    args: &'a mut ee::FuncArgs,
}

fn parts(f: &mut ee::FuncCall) -> FuncParts<'_> {
    FuncParts { name: &mut f.name, args: &mut f.args }
}

impl Decorator<'_> {
    fn deco<T>(&mut self, d: &mut Decorated<T>) {
        let mut x = d.decor().clone();
        self.decor(&mut x);
        *d.decor_mut() = x;
    }
    /// Parts that only allow inline trivia behind them.
    fn plain(&mut self, d: &mut Decorated<Ident>) {
        if self.s.chance(1, 6) {
            let t = self.trivia();
            d.decor_mut().set_suffix(t);
        }
    }
}

fn c05_decorated(s: &mut Src, c: &mut Case) -> Res {
    let b = gen_body(s, c);
    let mut built = build::body(&b);
    c.input = format!("{b:?}");
    Decorator { s, ml: false }.visit_body_mut(&mut built);
    let out = built.to_string();
    c.input = out.clone();
    let p: es::Body = out.parse().map_err(|e| Fail::new("rejected", format!("{out:?} {e}")))?;
    let (got, want) = (map_body(&reify::body(&p), &meaning_read), map_body(&b, &meaning));
    ensure!(norm_body(&got) == norm_body(&want), "structure", "prints {out:?}\ngot  {got:?}\nwant {want:?}");
    let again = p.to_string();
    ensure!(again.replace("\r\n", "\n") == out.replace("\r\n", "\n"), "unstable", "prints {out:?}, then {again:?}");
    Ok(())
}

// --- C17 ------------------------------------------------------------------------------------------

fn d_body(b: &hcl::Body) -> Result<Vec<S>, Fail> {
    Ok(norm_body(&map_body(&reify::d_body(b).map_err(|m| Fail::new("raw-template", m))?, &meaning_read)))
}

fn c17_document(s: &mut Src, c: &mut Case) -> Res {
    let crlf = s.chance(1, 6);
    let (b, d) = doc(s, c, crlf, false);
    let parsed: hcl::Body = d.text.parse().map_err(|e| Fail::new("rejected", format!("{e}")))?;
    let edit: es::Body = d.text.parse().map_err(|e| Fail::new("rejected", format!("{e}")))?;
    let conv = hcl::Body::from(edit.clone());
    ensure!(conv == parsed, "parse", "parsed    {parsed:?}\nconverted {conv:?}");
    let want = norm_body(&map_body(&b, &meaning));
    let got = d_body(&parsed)?;
    ensure!(got == want, "data", "got  {got:?}\nwant {want:?}");
    let back = es::Body::from(parsed.clone());
    let got = norm_body(&map_body(&reify::body(&back), &meaning_read));
    ensure!(got == want, "back", "{parsed:?}\ngot  {got:?}\nwant {want:?}");
    // Once more from the editing model's text.
    let text = back.to_string();
    let p: hcl::Body = text.parse().map_err(|e| Fail::new("reparse", format!("{text:?} {e}")))?;
    let got = d_body(&p)?;
    ensure!(got == want, "text", "{text:?}\ngot  {got:?}\nwant {want:?}");
    Ok(())
}

fn c17_data(s: &mut Src, c: &mut Case) -> Res {
    let b = gen_body(s, c);
    c.input = format!("{b:?}");
    let data = build::d_body(&b);
    let want = norm_body(&map_body(&b, &meaning));
    let edit = no_panic(|| es::Body::from(data.clone())).map_err(|m| Fail::new("panic", m))?;
    let got = map_body(&reify::body(&edit), &meaning_read);
    ensure!(norm_body(&got) == norm_body(&want), "edit", "{data:?}\ngot  {got:?}\nwant {want:?}");
    let back = hcl::Body::from(edit);
    let got = d_body(&back)?;
    ensure!(norm_body(&got) == norm_body(&want), "back", "{data:?}\n{back:?}\ngot  {got:?}\nwant {want:?}");
    // One by one.
    for (i, st) in data.iter().enumerate() {
        let x = hcl::Structure::from(es::Structure::from(st.clone()));
        let y = back.iter().nth(i).unwrap();
        ensure!(x == *y, "structure", "{x:?} is not {y:?}");
        match st {
            hcl::Structure::Attribute(a) => {
                let z = hcl::Attribute::from(es::Attribute::from(a.clone()));
                ensure!(hcl::Structure::Attribute(z.clone()) == x, "attribute", "{z:?} is not {x:?}");
            }
            hcl::Structure::Block(a) => {
                let z = hcl::Block::from(es::Block::from(a.clone()));
                ensure!(hcl::Structure::Block(z.clone()) == x, "block", "{z:?} is not {x:?}");
                ensure!(z.labels == a.labels, "labels", "{:?} {:?}", z.labels, a.labels);
            }
        }
    }
    Ok(())
}

fn c17_expr(s: &mut Src, c: &mut Case) -> Res {
    let (e, data) = if s.bool() {
        let (e, d) = ex(s, c, false);
        let p: hcl::Expression = d.text.parse().map_err(|e| Fail::new("rejected", format!("{e}")))?;
        let edit: ee::Expression = d.text.parse().map_err(|e| Fail::new("rejected", format!("{e}")))?;
        let conv = hcl::Expression::from(edit);
        ensure!(p == conv, "parse", "parsed    {p:?}\nconverted {conv:?}");
        (e, p)
    } else {
        let e = gen_expr(s, c);
        c.input = format!("{e:?}");
        let d = build::d_expr(&e);
        (e, d)
    };
    let want = meaning(&e);
    let got = meaning_read(&reify::d_expr(&data).map_err(|m| Fail::new("raw-template", m))?);
    ensure!(norm_eq(&got, &want), "data", "got  {got:?}\nwant {want:?}");
    let edit = ee::Expression::from(data.clone());
    let got = meaning_read(&reify::expr(&edit));
    ensure!(norm_eq(&got, &want), "edit", "{data:?}\ngot  {got:?}\nwant {want:?}");
    let back = hcl::Expression::from(edit);
    let got = meaning_read(&reify::d_expr(&back).map_err(|m| Fail::new("raw-template", m))?);
    ensure!(norm_eq(&got, &want), "back", "{data:?}\n{back:?}\ngot  {got:?}\nwant {want:?}");
    Ok(())
}

fn norm_eq(a: &E, b: &E) -> bool {
    norm(a) == norm(b)
}

fn c17_template(s: &mut Src, c: &mut Case) -> Res {
    let (ts, data) = if s.bool() {
        let (ts, d) = tpl(s, c, false);
        let p: hcl::Template = d.text.parse().map_err(|e| Fail::new("rejected", format!("{e}")))?;
        let edit: et::Template = d.text.parse().map_err(|e| Fail::new("rejected", format!("{e}")))?;
        let conv = hcl::Template::from(edit);
        ensure!(p == conv, "parse", "parsed    {p:?}\nconverted {conv:?}");
        (ts, p)
    } else {
        let ts = gen_tpl(s, c, false);
        c.input = format!("{ts:?}");
        let d = build::d_template(&ts);
        (ts, d)
    };
    let want = join(&norm_tpl(&map_texpr_meaning(&ts)));
    let got = join(&map_elements(&reify::d_template(&data).map_err(|m| Fail::new("raw-template", m))?));
    ensure!(got == want, "data", "got  {got:?}\nwant {want:?}");
    let edit = et::Template::from(data.clone());
    let got = join(&map_elements(&reify::template(&edit)));
    ensure!(got == want, "edit", "{data:?}\ngot  {got:?}\nwant {want:?}");
    let back = hcl::Template::from(edit);
    let got = join(&map_elements(&reify::d_template(&back).map_err(|m| Fail::new("raw-template", m))?));
    ensure!(got == want, "back", "{data:?}\nbecomes {back:?}");
    Ok(())
}

fn c17_evaluation(s: &mut Src, c: &mut Case) -> Res {
    let env = geneval::env(s);
    let mut g = Eg::new(s, &env);
    g.noise = 8;
    let e = g.any();
    labels(c, &e);
    c.nontrivial = compound(&e);
    let ctx = geneval::context(&env);
    let data = build::d_expr(&e);
    c.input = format!("{data}\nwith {:?}", env.vars);
    let edit = ee::Expression::from(data.clone());
    let back = hcl::Expression::from(edit.clone());
    let text = edit.to_string();
    let read: hcl::Expression = text.parse().map_err(|e| Fail::new("rejected", format!("{text:?} {e}")))?;
    let want = data.evaluate(&ctx);
    for (what, x) in [("converted", &back), ("printed and read", &read)] {
        let got = x.evaluate(&ctx);
        match (&got, &want) {
            (Ok(a), Ok(b)) => ensure!(a == b, "value", "{data:?} gives {b:?}, {what} as {x:?} gives {a:?}"),
            (Err(_), Err(_)) => {}
            _ => fail!("value", "{data:?} gives {want:?}, {what} as {x:?} gives {got:?}"),
        }
    }
    Ok(())
}
