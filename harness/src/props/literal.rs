//! C15: literal text and template syntax.

use super::t;
use crate::build;
use crate::engine::{Case, Fail, Prop, Res, Test};
use crate::gen::{self, Gen};
use crate::model::*;
use crate::reify;
use crate::render;
use crate::src::Src;
use crate::{ensure, fail};
use hcl::eval::Evaluate;
use hcl_primitives::template::{escape_markers, unescape_markers};

pub fn add(p: &mut Vec<Prop>, ts: &mut Vec<Test>) {
    p.push(Prop { id: "C15", rule: "a text that contains a dollar or percent sign, or a template with a literal next to another element" });
    ts.push(t("C15", "escape", 150_000, 1_500_000, escape));
    ts.push(t("C15", "quoted", 80_000, 800_000, quoted));
    ts.push(t("C15", "bare", 80_000, 800_000, bare));
    ts.push(t("C15", "heredoc", 60_000, 600_000, heredoc));
    ts.push(t("C15", "parsed", 80_000, 800_000, parsed));
    ts.push(t("C15", "ambiguous", 40_000, 400_000, ambiguous));
}

/// Text in which markers are likely.
fn markers(s: &mut Src) -> String {
    if s.bool() {
        return gen::text(s, 20);
    }
    let mut out = String::new();
    let mut n = 0;
    while s.more(n, 6, 24) {
        n += 1;
        out.push(*s.pick(&['$', '%', '{', '}', 'a', '~', '\\', '"', '\n', ' ']));
    }
    out
}

/// The text with each marker escaped.
fn escaped(s: &str) -> String {
    s.replace("${", "$${").replace("%{", "%%{")
}

fn one_lit(ts: &[T], want: &str) -> bool {
    match ts {
        [] => want.is_empty(),
        [T::Lit(l)] => l == want,
        _ => false,
    }
}

/// The reference of unescaping: left to right, every escaped marker is replaced.
fn unescaped(x: &str) -> String {
    let mut out = String::new();
    let mut rest = x;
    while let Some(c) = rest.chars().next() {
        let n = if rest.starts_with("$${") || rest.starts_with("%%{") {
            out.push_str(&rest[1..3]);
            3
        } else {
            out.push(c);
            c.len_utf8()
        };
        rest = &rest[n..];
    }
    out
}

fn escape(s: &mut Src, c: &mut Case) -> Res {
    let x = markers(s);
    c.input = x.clone();
    c.nontrivial = x.contains(['$', '%']);
    if x.contains("${") || x.contains("%{") {
        c.label("marker");
    }
    let e = escape_markers(&x);
    ensure!(e == escaped(&x), "escape", "{x:?} escaped as {e:?}");
    let u = unescape_markers(&e);
    ensure!(u == x, "unescape", "{x:?} escaped as {e:?}, unescaped as {u:?}");
    let (u, w) = (unescape_markers(&x), unescaped(&x));
    ensure!(u == w, "unescape", "{x:?} unescaped as {u:?}, want {w:?}");
    let t = hcl_edit::parser::parse_template(&e).map_err(|e| Fail::new("reject", format!("{x:?}: {e}")))?;
    let ts = reify::template(&t);
    ensure!(one_lit(&ts, &x), "literal", "{x:?} read back as {ts:?}");
    let d: hcl::Template = e.parse().map_err(|e| Fail::new("reject", format!("{e}")))?;
    ensure!(reify::d_template(&d).is_ok_and(|t| one_lit(&t, &x)), "literal", "{x:?} read back as {d:?}");
    let v = d.evaluate(&hcl::eval::Context::new());
    ensure!(v.as_deref().ok() == Some(&*x), "evaluate", "{x:?} renders as {v:?}");
    // The template as it comes out of the constructors.
    let lit = [T::Lit(x.clone())];
    for text in [build::template(&lit).to_string(), build::d_template(&lit).to_string()] {
        ensure!(text == escaped(&x), "print", "{x:?} printed as {text:?}");
    }
    // Quoted strings.
    for text in [hcl_edit::expr::Expression::from(x.as_str()).to_string(), hcl::Expression::from(x.as_str()).to_string(), hcl::format::to_string(&x).unwrap()] {
        let r = hcl_edit::parser::parse_expr(&text).map(|e| reify::expr(&e));
        ensure!(r.as_ref().ok() == Some(&E::Str(x.clone())), "string", "{x:?} printed as {text}, read back as {r:?}");
    }
    // Text that happens to be a template of nothing but a literal is its unescaped form.
    if let Ok(t) = hcl_edit::parser::parse_template(&x) {
        let ts = reify::template(&t);
        if ts.iter().all(|t| matches!(t, T::Lit(_))) {
            c.label("literal-only");
            let u = unescape_markers(&x);
            ensure!(one_lit(&ts, &u), "unescape", "{x:?} reads as {ts:?}, unescaped is {u:?}");
        }
    }
    Ok(())
}

/// Break literals up into several ones.
fn split(s: &mut Src, ts: &[T]) -> Vec<T> {
    let mut out = Vec::new();
    for t in ts {
        match t {
            T::Lit(l) => {
                let cs: Vec<char> = l.chars().collect();
                let mut cur = String::new();
                for c in cs {
                    if s.chance(1, 4) {
                        out.push(T::Lit(std::mem::take(&mut cur)));
                    }
                    cur.push(c);
                }
                out.push(T::Lit(cur));
            }
            T::Interp(..) => out.push(t.clone()),
            T::If { cond, then, els, s_if, s_else, s_end } => {
                let then = split(s, then);
                let els = els.as_ref().map(|e| split(s, e));
                out.push(T::If { cond: cond.clone(), then, els, s_if: *s_if, s_else: *s_else, s_end: *s_end });
            }
            T::For { key, val, coll, body, s_for, s_end } => {
                let body = split(s, body);
                out.push(T::For { key: key.clone(), val: val.clone(), coll: coll.clone(), body, s_for: *s_for, s_end: *s_end });
            }
        }
    }
    out
}

fn note(ts: &[T], c: &mut Case) {
    for w in ts.windows(2) {
        if let [T::Lit(l), x] = w {
            c.nontrivial = true;
            if gen::clash(l, x) {
                c.label("clash");
            }
        }
        if let [_, T::Lit(_)] = w {
            c.nontrivial = true;
        }
    }
    for t in ts {
        match t {
            T::Lit(l) if l.contains("${") || l.contains("%{") => c.label("marker"),
            T::Lit(_) => {}
            T::Interp(..) => c.label("interpolation"),
            T::If { then, .. } => {
                c.label("if");
                note(then, c);
            }
            T::For { body, .. } => {
                c.label("for");
                note(body, c);
            }
        }
    }
}

fn elems(s: &mut Src, c: &mut Case, bare: bool) -> (Vec<T>, Vec<T>) {
    let mut g = Gen::new(s);
    g.bare = bare;
    g.plain_flush = true;
    let ts = if bare { { let lines = g.s.bool(); g.elements(lines, 6) } } else { g.template() };
    note(&ts, c);
    let sp = if s.chance(1, 3) { split(s, &ts) } else { ts.clone() };
    (ts, sp)
}


fn quoted(s: &mut Src, c: &mut Case) -> Res {
    let (ts, sp) = elems(s, c, false);
    let want = norm(&E::Tpl(ts));
    let text = build::expr(&E::Tpl(sp)).to_string();
    c.input = text.clone();
    let p = hcl_edit::parser::parse_expr(&text).map_err(|e| Fail::new("reject", format!("{text}\n{e}")))?;
    let got = norm(&reify::expr(&p));
    ensure!(got == want, "changed", "printed {text}\nread back {got:?}\nwant {want:?}");
    again(&p, &want)
}

fn again(p: &hcl_edit::expr::Expression, want: &E) -> Res {
    let text = p.to_string();
    let q = hcl_edit::parser::parse_expr(&text).map_err(|e| Fail::new("reject", format!("{text}\n{e}")))?;
    let got = norm(&reify::expr(&q));
    ensure!(got == *want, "changed", "printed again {text}\nread back {got:?}\nwant {want:?}");
    Ok(())
}

fn bare(s: &mut Src, c: &mut Case) -> Res {
    let (ts, sp) = elems(s, c, true);
    let want = quoted_keys_tpl(norm_tpl(&ts));
    for (what, text) in [("hcl_edit", build::template(&sp).to_string()), ("hcl", build::d_template(&sp).to_string())] {
        c.input = text.clone();
        let p = hcl_edit::parser::parse_template(&text).map_err(|e| Fail::new("reject", format!("{what}: {text}\n{e}")))?;
        let got = quoted_keys_tpl(norm_tpl(&reify::template(&p)));
        ensure!(got == want, "changed", "{what} printed {text}\nread back {got:?}\nwant {want:?}");
        let d: hcl::Template = text.parse().map_err(|e| Fail::new("reject", format!("{what}: {text}\n{e}")))?;
        let got = reify::d_template(&d).map(|t| quoted_keys_tpl(norm_tpl(&t))).map_err(|e| Fail::new("reject", e))?;
        ensure!(got == want, "changed", "{what} printed {text}\nread back {got:?}\nwant {want:?}");
        let text = p.to_string();
        let p = hcl_edit::parser::parse_template(&text).map_err(|e| Fail::new("reject", format!("{what}: {text}\n{e}")))?;
        let got = quoted_keys_tpl(norm_tpl(&reify::template(&p)));
        ensure!(got == want, "changed", "{what} printed again {text}\nread back {got:?}\nwant {want:?}");
    }
    Ok(())
}

fn heredoc(s: &mut Src, c: &mut Case) -> Res {
    let mut g = Gen::new(s);
    g.plain_flush = true;
    let h = g.heredoc();
    note(&h.tpl, c);
    let sp = Hd { tpl: if s.chance(1, 3) { split(s, &h.tpl) } else { h.tpl.clone() }, ..h.clone() };
    let want = norm(&E::Heredoc(Box::new(h)));
    let text = build::expr(&E::Heredoc(Box::new(sp))).to_string();
    c.input = text.clone();
    let p = hcl_edit::parser::parse_expr(&text).map_err(|e| Fail::new("reject", format!("{text}\n{e}")))?;
    let got = norm(&reify::expr(&p));
    ensure!(got == want, "changed", "printed {text}\nread back {got:?}\nwant {want:?}");
    again(&p, &want)
}

/// Templates in random spelling.
fn parsed(s: &mut Src, c: &mut Case) -> Res {
    let bare = s.bool();
    let (ts, _) = elems(s, c, bare);
    let ts = if norm(&E::Tpl(ts.clone())) == E::Tpl(norm_tpl(&ts)) { ts } else { vec![T::Interp(E::Var("x".into()), (false, false))] };
    let want = norm(&E::Tpl(ts.clone()));
    let text = render::render_expr(s, &E::Tpl(ts)).text;
    c.input = text.clone();
    let p = hcl_edit::parser::parse_expr(&text).map_err(|e| Fail::new("reject", format!("{text}\n{e}")))?;
    again(&p, &want)?;
    // In the data model the template is plain text, in which a literal sign before a marker has no
    // other spelling than an interpolation.
    if !bare {
        return Ok(());
    }
    let d: hcl::Expression = text.parse().map_err(|e| Fail::new("reject", format!("{text}\n{e}")))?;
    let out = hcl::format::to_string(&d).map_err(|e| Fail::new("format", format!("{e}")))?;
    let p = hcl_edit::parser::parse_expr(&out).map_err(|e| Fail::new("reject", format!("{out}\n{e}")))?;
    let (got, want) = (quoted_keys(&norm(&reify::expr(&p))), quoted_keys(&want));
    ensure!(got == want, "changed", "formatted {out}\nread back {got:?}\nwant {want:?}");
    Ok(())
}

/// Signs in front of markers outside of quotes: the text that is rendered is what counts.
fn ambiguous(s: &mut Src, c: &mut Case) -> Res {
    let mut ts = Vec::new();
    let mut want = String::new();
    let mut n = 0;
    while s.more(n, 4, 10) {
        n += 1;
        match s.below(4) {
            0 | 1 => {
                let l = (*s.pick(&["$", "%", "a$", "a%", "{", "$${", "%%", "x"])).to_string();
                want.push_str(&l);
                ts.push(T::Lit(l));
            }
            2 => {
                let l = (*s.pick(&["b", "{", "${", "%{x}", "$"])).to_string();
                want.push_str(&l);
                ts.push(T::Interp(E::Str(l), (false, false)));
            }
            _ => {
                let l = (*s.pick(&["c", "$", "%", "%{", "{"])).to_string();
                want.push_str(&l);
                ts.push(T::If { cond: E::Bool(true), then: vec![T::Lit(l)], els: None, s_if: (false, false), s_else: (false, false), s_end: (false, false) });
            }
        }
    }
    note(&ts, c);
    let q = hcl_edit::template::StringTemplate::from(build::template(&ts));
    let texts = [build::template(&ts).to_string(), build::d_template(&ts).to_string()];
    for t in &texts {
        c.input = t.clone();
        let d: hcl::Template = t.parse().map_err(|e| Fail::new("reject", format!("{t}\n{e}")))?;
        let v = d.evaluate(&hcl::eval::Context::new());
        ensure!(v.as_deref().ok() == Some(&*want), "render", "{ts:?} printed as {t:?} renders as {v:?}, want {want:?}");
    }
    let t = hcl_edit::expr::Expression::from(q).to_string();
    let d: hcl::Expression = t.parse().map_err(|e| Fail::new("reject", format!("{t}\n{e}")))?;
    match d.evaluate(&hcl::eval::Context::new()) {
        Ok(hcl::Value::String(v)) if v == want => Ok(()),
        v => fail!("render", "{ts:?} printed as {t} evaluates to {v:?}, want {want:?}"),
    }
}
