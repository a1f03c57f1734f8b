//! C11 (evaluation), C12 (partial evaluation), C13 (templates) and C20 (function calls), against
//! the reference evaluator.

use super::t;
use crate::build;
use crate::engine::{no_panic, Case, Fail, Prop, Res, Test};
use crate::gen::{self, Gen};
use crate::geneval::{self, Eg};
use crate::model::*;
use crate::refeval::{self, CallRec, Env, Er, Ev, Ty, P, V};
use crate::reify;
use crate::render;
use crate::src::Src;
use crate::{ensure, fail};
use hcl::eval::{Context, ErrorKind, Evaluate};

pub fn add(p: &mut Vec<Prop>, ts: &mut Vec<Test>) {
    p.push(Prop { id: "C11", rule: "an expression of at least four nodes that the reference evaluates to a value" });
    ts.push(t("C11", "typed", 300_000, 3_000_000, typed));
    ts.push(t("C11", "untyped", 150_000, 1_500_000, untyped));
    ts.push(t("C11", "traversal", 150_000, 1_500_000, traversal));
    ts.push(t("C11", "body", 40_000, 400_000, body));
    p.push(Prop { id: "C13", rule: "a template with a strip marker next to literal text, a directive, or an indented flush heredoc" });
    ts.push(t("C13", "render", 100_000, 1_000_000, tpl_render));
    ts.push(t("C13", "strip", 120_000, 1_200_000, tpl_strip));
    ts.push(t("C13", "heredoc", 100_000, 1_000_000, tpl_heredoc));
    p.push(Prop { id: "C12", rule: "a document some but not all of whose expressions can be evaluated with the first context" });
    ts.push(t("C12", "partial", 80_000, 800_000, partial));
    ts.push(t("C12", "template", 80_000, 800_000, partial_template));
    ts.push(t("C12", "deserialize", 40_000, 400_000, deserialize));
    p.push(Prop { id: "C20", rule: "a call whose arguments were evaluated, to a function with at least one parameter of a definite type" });
    ts.push(t("C20", "call", 250_000, 2_500_000, call));
    ts.push(t("C20", "nested", 80_000, 800_000, nested_calls));
}

pub fn size(e: &E) -> usize {
    let mut n = 0;
    walk(e, &mut |_| n += 1);
    n
}

/// A reified number loses nothing, so values compare exactly, order of entries included.
fn agree(want: &Result<V, Er>, got: &Result<hcl::Value, hcl::eval::Error>) -> Result<(), String> {
    match (want, got) {
        (Ok(w), Ok(g)) if w.same(&V::of(g)) => Ok(()),
        (Ok(w), Ok(g)) => Err(format!("gives {g:?}, want {w:?}")),
        (Err(_), Err(e)) => {
            // Errors can be shown.
            let _ = format!("{e} {e:?}");
            Ok(())
        }
        (Ok(w), Err(e)) => Err(format!("fails with {e}, want {w:?}")),
        (Err(w), Ok(g)) => Err(format!("gives {g:?}, want an error ({w:?})")),
    }
}

fn sorted(mut l: Vec<CallRec>) -> Vec<String> {
    let mut v: Vec<String> = l.drain(..).map(|c| format!("{c:?}")).collect();
    v.sort();
    v
}

fn check_expr(s: &mut Src, c: &mut Case, env: &Env, e: &E) -> Res {
    let ctx = geneval::context(env);
    let mut ev = Ev::new(env);
    let want = ev.expr(e);
    for k in &ev.seen {
        c.label(k);
    }
    match &want {
        Ok(_) => c.label("value"),
        Err(er) => c.label(match er {
            Er::UndefVar(_) => "undefined-variable",
            Er::UndefFn(_) => "undefined-function",
            Er::Type => "type-mismatch",
            Er::Index(_) => "out-of-bounds",
            Er::NoKey(_) => "no-such-key",
            Er::KeyExists(_) => "key-exists",
            Er::Unary => "unary-error",
            Er::Binary => "binary-error",
            Er::Args(_) => "arguments",
            Er::Func(..) => "function-failed",
        }),
    }
    c.nontrivial = want.is_ok() && size(e) >= 4;
    // As text.
    let doc = render::render_expr(s, e);
    c.input = format!("{}\nwith {:?}", doc.text, env.vars);
    let mut forms: Vec<(&str, hcl::Expression)> = vec![("built", build::d_expr(e))];
    match doc.text.parse::<hcl::Expression>() {
        Ok(x) => forms.push(("parsed", x)),
        Err(x) => fail!("rejected", "{}: {x}", doc.text),
    }
    for (how, x) in forms {
        geneval::take_log();
        let got = no_panic(|| x.evaluate(&ctx)).map_err(|m| Fail::new("panic", format!("{x} panics: {m}")))?;
        let log = geneval::take_log();
        if let Err(m) = agree(&want, &got) {
            fail!(format!("value:{how}"), "{x} {m}");
        }
        if want.is_ok() {
            ensure!(sorted(log.clone()) == sorted(ev.log.clone()), "calls", "{x} called {log:?}, want {:?}", ev.log);
        }
        if let Err(err) = &got {
            names_what_is_wrong(env, &ctx, &x, err)?;
        }
        // The context is as before.
        if s.chance(1, 8) {
            for (k, v) in &env.vars {
                let g = hcl::expr::Variable::new(k.as_str()).unwrap();
                let g = hcl::Expression::from(g).evaluate(&ctx);
                ensure!(g.is_ok_and(|g| V::of(&g).same(v)), "context", "{k} changed");
            }
            for l in ["v", "i"] {
                let g = hcl::Expression::from(hcl::expr::Variable::new(l).unwrap()).evaluate(&ctx);
                ensure!(g.is_err(), "context", "{l} is defined after evaluating {x}");
            }
            let again = x.evaluate(&ctx);
            ensure!(again.is_ok() == got.is_ok() && (again.is_err() || again == got), "context", "{x} gives another result the second time");
        }
    }
    Ok(())
}

/// An error is about something that is wrong with the expression, and carries the part it is about.
fn names_what_is_wrong(env: &Env, ctx: &Context, x: &hcl::Expression, err: &hcl::eval::Error) -> Res {
    let Ok(e) = reify::d_expr(x) else { return Ok(()) };
    let part = match err.expr() {
        Some(p) => Some((p, reify::d_expr(p).map_err(|m| Fail::new("error-expr", m))?)),
        None => None,
    };
    let (mut found, mut scopes, mut named) = (part.is_none(), false, false);
    let kind = err.kind();
    walk(&e, &mut |e| {
        found |= part.as_ref().is_some_and(|(_, p)| p == e);
        match e {
            E::For(_) => scopes = true,
            E::Tpl(ts) => scopes |= has_for(ts),
            E::Heredoc(h) => scopes |= has_for(&h.tpl),
            _ => {}
        }
        named |= match (kind, e) {
            (ErrorKind::UndefinedVar(n), E::Var(v)) => n.as_str() == v,
            (ErrorKind::UndefinedFunc(n) | ErrorKind::FuncCall(n, _), E::Call(f, ..)) => n.to_string() == f.join("::"),
            (ErrorKind::UnaryOp(o, _), E::Un(p, _)) => reify::unop(*o) == *p,
            (ErrorKind::BinaryOp(_, o, _), E::Bin(_, p, _)) => reify::binop(*o) == *p,
            (ErrorKind::UndefinedVar(_) | ErrorKind::UndefinedFunc(_) | ErrorKind::FuncCall(..) | ErrorKind::UnaryOp(..) | ErrorKind::BinaryOp(..), _) => false,
            _ => true,
        };
    });
    ensure!(named, "error-name", "{x} fails with {err}, which it does not hold");
    match kind {
        ErrorKind::UndefinedVar(n) => ensure!(!env.vars.contains_key(n.as_str()), "error-name", "{x} fails with {err}"),
        ErrorKind::UndefinedFunc(n) => ensure!(!env.funs.iter().any(|f| f.name.join("::") == n.to_string()), "error-name", "{x} fails with {err}"),
        _ => {}
    }
    ensure!(found, "error-expr", "{x} fails with {err}, whose expression {:?} is no part of it", err.expr());
    if let (Some((p, _)), false) = (&part, scopes) {
        match p.evaluate(ctx) {
            Ok(v) => fail!("error-expr", "{x} fails with {err}, but its expression gives {v}"),
            Err(own) => ensure!(own.kind() == kind, "error-expr", "{x} fails with {err}, but its expression with {own}"),
        }
    }
    Ok(())
}

fn has_for(ts: &[T]) -> bool {
    ts.iter().any(|t| match t {
        T::For { .. } => true,
        T::If { then, els, .. } => has_for(then) || els.as_ref().is_some_and(|e| has_for(e)),
        _ => false,
    })
}

fn typed(s: &mut Src, c: &mut Case) -> Res {
    let env = geneval::env(s);
    let mut g = Eg::new(s, &env);
    let e = g.any();
    check_expr(s, c, &env, &e)
}

/// Expressions that were not written with evaluation in mind: mostly errors, no panics.
fn untyped(s: &mut Src, c: &mut Case) -> Res {
    let mut env = geneval::env(s);
    let mut g = Gen::new(s);
    g.fuel /= 3;
    let e = g.expr();
    // Define some of the names.
    let mut vars = Vec::new();
    let mut funs = Vec::new();
    walk(&e, &mut |e| match e {
        E::Var(v) => vars.push(v.clone()),
        E::Call(n, ..) => funs.push(n.clone()),
        _ => {}
    });
    for v in vars {
        if s.chance(9, 10) && !env.vars.contains_key(&v) {
            env.vars.insert(v, geneval::value(s, 2));
        }
    }
    for f in funs {
        if s.chance(9, 10) && env.fun(&f).is_none() {
            let mut x = geneval::fun(s, f);
            if s.bool() {
                x.params.clear();
                x.variadic = Some(P::Any);
            }
            env.funs.push(x);
        }
    }
    check_expr(s, c, &env, &e)
}

/// Lists and objects within each other.
fn deep_value(s: &mut Src) -> V {
    let mut v = geneval::value(s, 1);
    for _ in 0..s.range(3, 10) {
        v = match s.weighted(&[4, 1, 1]) {
            0 => V::Obj(vec![((*s.pick(&["id", "name", "a", "b"])).to_string(), v)]),
            1 => V::Arr(vec![v.clone(), v]),
            _ => V::Arr((0..s.range(1, 3)).map(|_| v.clone()).collect()),
        };
    }
    v
}

/// Deep paths and splats.
fn traversal(s: &mut Src, c: &mut Case) -> Res {
    let env = geneval::env(s);
    let vars: Vec<String> = env.vars.keys().cloned().collect();
    let deep = s.chance(1, 4);
    let base = if deep {
        c.label("deep");
        deep_value(s).lit()
    } else if vars.is_empty() || s.chance(1, 4) {
        geneval::value(s, 3).lit()
    } else {
        E::Var(s.pick(&vars).clone())
    };
    let mut ops: Vec<Op> = Vec::new();
    // Follow the value, sometimes off the path.
    let mut cur: Vec<V> = refeval::eval(&env, &base).into_iter().collect();
    let (mean, max) = if deep { (9, 14) } else { (4, 7) };
    while s.more(ops.len(), mean, max) {
        let v = cur.first().cloned().unwrap_or(V::Null);
        let op = match (s.weighted(&[6, 1, 1, 1]), &v) {
            (1, _) => Op::FullSplat,
            (2, _) => Op::AttrSplat,
            (3, _) => match s.below(4) {
                0 => Op::Attr("id".into()),
                1 => Op::Legacy(s.draw(4)),
                2 => Op::Index(V::lit(&geneval::value(s, 1))),
                _ => Op::Index(Eg::new(s, &env).any()),
            },
            (_, V::Arr(a)) if !a.is_empty() => {
                let i = s.below(a.len()) as u64;
                match s.below(4) {
                    0 => Op::FullSplat,
                    1 => Op::AttrSplat,
                    2 => Op::Legacy(i),
                    _ => Op::Index(E::Num(N::U(i))),
                }
            }
            (_, V::Obj(o)) if !o.is_empty() => {
                let (k, _) = s.pick(o);
                if hcl_primitives::ident::is_ident(k) && s.chance(2, 3) {
                    Op::Attr(k.clone())
                } else {
                    Op::Index(E::Str(k.clone()))
                }
            }
            _ => Op::FullSplat,
        };
        ops.push(op);
        let e = geneval::trav(base.clone(), ops.clone());
        cur = match refeval::eval(&env, &e) {
            Ok(v) => vec![v],
            Err(_) => vec![],
        };
        let attr_splat = ops.iter().rev().find(|o| !matches!(o, Op::Attr(_))).is_some_and(|o| matches!(o, Op::AttrSplat));
        if attr_splat || ops.iter().any(|o| matches!(o, Op::FullSplat)) {
            // Following operators apply to the elements.
            if let Some(V::Arr(a)) = cur.first().cloned() {
                cur = a;
            }
        }
    }
    let e = geneval::trav(base, ops);
    check_expr(s, c, &env, &e)
}

fn ref_body(ev: &mut Ev, b: &[S]) -> Result<Vec<S>, Er> {
    b.iter()
        .map(|s| {
            Ok(match s {
                S::Attr(k, e) => S::Attr(k.clone(), ev.expr(e)?.lit()),
                S::Block(b) => S::Block(Blk { ident: b.ident.clone(), labels: b.labels.clone(), body: ref_body(ev, &b.body)?, oneline: false }),
            })
        })
        .collect()
}

/// Compare bodies of literals.
fn key_norm(b: &[S]) -> Vec<S> {
    fn ex(e: &E) -> E {
        match e {
            E::Arr(v) => E::Arr(v.iter().map(ex).collect()),
            E::Obj(v) => E::Obj(
                v.iter()
                    .map(|(k, v)| {
                        let k = match k {
                            K::Id(s) => K::Ex(E::Str(s.clone())),
                            k => k.clone(),
                        };
                        (k, ex(v))
                    })
                    .collect(),
            ),
            e => e.clone(),
        }
    }
    b.iter()
        .map(|s| match s {
            S::Attr(k, e) => S::Attr(k.clone(), ex(e)),
            S::Block(b) => S::Block(Blk { body: key_norm(&b.body), ..b.clone() }),
        })
        .collect()
}

fn body(s: &mut Src, c: &mut Case) -> Res {
    let env = geneval::env(s);
    let mut g = Eg::new(s, &env);
    g.noise = 3;
    let b = g.body(2);
    let ctx = geneval::context(&env);
    let mut ev = Ev::new(&env);
    let want = ref_body(&mut ev, &b);
    let mut n = 0;
    walk_body(&b, &mut |_| n += 1);
    c.nontrivial = want.is_ok() && n >= 4;
    c.label(if want.is_ok() { "value" } else { "error" });
    let text = render::render_body(s, &b, false).text;
    c.input = text.clone();
    let parsed: hcl::Body = text.parse().map_err(|e| Fail::new("rejected", format!("{text}: {e}")))?;
    for x in [parsed, build::d_body(&b)] {
        let got = no_panic(|| x.evaluate(&ctx)).map_err(|m| Fail::new("panic", format!("{text} panics: {m}")))?;
        match (&want, got) {
            (Err(_), Err(_)) => {}
            (Err(w), Ok(g)) => fail!("body", "{text}\ngives {g:?}, want an error ({w:?})"),
            (Ok(_), Err(e)) => fail!("body", "{text}\nfails with {e}"),
            (Ok(w), Ok(g)) => {
                let r = reify::d_body(&g).map_err(|m| Fail::new("body", m))?;
                ensure!(key_norm(&r) == key_norm(w), "body", "{text}\ngives {g:?}, want {w:?}");
            }
        }
    }
    Ok(())
}

// --- C13 ------------------------------------------------------------------------------------------

fn tpl_labels(ts: &[T], c: &mut Case) {
    let starts = |t: &T| match t {
        T::Lit(_) => false,
        T::Interp(_, s) => s.0,
        T::If { s_if, .. } => s_if.0,
        T::For { s_for, .. } => s_for.0,
    };
    let ends = |t: &T| match t {
        T::Lit(_) => false,
        T::Interp(_, s) => s.1,
        T::If { s_end, .. } | T::For { s_end, .. } => s_end.1,
    };
    for w in ts.windows(2) {
        if matches!(w, [T::Lit(_), t] if starts(t)) {
            c.label("strip-before");
            c.nontrivial = true;
        }
        if matches!(w, [t, T::Lit(_)] if ends(t)) {
            c.label("strip-after");
            c.nontrivial = true;
        }
    }
    for t in ts {
        match t {
            T::Lit(_) | T::Interp(..) => {}
            T::If { then, els, .. } => {
                c.label("if");
                c.nontrivial = true;
                tpl_labels(then, c);
                if let Some(e) = els {
                    c.label("else");
                    tpl_labels(e, c);
                }
            }
            T::For { body, .. } => {
                c.label("for");
                c.nontrivial = true;
                tpl_labels(body, c);
            }
        }
    }
}

fn has_cr(ts: &[T]) -> bool {
    let mut f = false;
    gen::map_lits(ts, &|l| l.to_string()).iter().for_each(|t| match t {
        T::Lit(l) => f |= l.contains('\r'),
        T::Interp(..) => {}
        T::If { then, els, .. } => f |= has_cr(then) || els.as_ref().is_some_and(|e| has_cr(e)),
        T::For { body, .. } => f |= has_cr(body),
    });
    f
}

fn any_clash(ts: &[T]) -> bool {
    ts.windows(2).any(|w| matches!(w, [T::Lit(l), t] if gen::clash(l, t)))
        || ts.iter().any(|t| match t {
            T::If { then, els, .. } => {
                let last = |b: &[T]| matches!(b.last(), Some(T::Lit(l)) if l.ends_with('%'));
                any_clash(then) || last(then) || els.as_ref().is_some_and(|e| any_clash(e) || last(e))
            }
            T::For { body, .. } => any_clash(body) || matches!(body.last(), Some(T::Lit(l)) if l.ends_with('%')),
            _ => false,
        })
}

/// Evaluate a template every way there is.
fn check_tpl(s: &mut Src, c: &mut Case, env: &Env, ts: &[T]) -> Res {
    let ctx = geneval::context(env);
    tpl_labels(ts, c);
    let want = Ev::new(env).template(ts);
    c.label(if want.is_ok() { "text" } else { "error" });
    let chk = |how: &str, src: &str, got: Result<String, String>| -> Res {
        match (&want, &got) {
            (Ok(w), Ok(g)) if w == g => Ok(()),
            (Err(_), Err(_)) => Ok(()),
            _ => Err(Fail::new(format!("render:{how}"), format!("{how} {src:?} gives {got:?}, want {want:?}"))),
        }
    };
    // Built.
    let d = build::d_template(ts);
    c.input = format!("{:?} with {:?}", d.to_string(), env.vars);
    chk("built", &format!("{ts:?}"), no_panic(|| d.evaluate(&ctx)).map_err(|m| Fail::new("panic", m))?.map_err(|e| e.to_string()))?;
    // Through the editing model.
    let et = build::template(ts);
    let d = hcl::Template::from(et);
    chk("converted", &format!("{ts:?}"), d.evaluate(&ctx).map_err(|e| e.to_string()))?;
    // Printed and read back.
    let p = d.to_string();
    let d2: hcl::Template = p.parse().map_err(|e| Fail::new("rejected", format!("{p:?}: {e}")))?;
    chk("printed", &p, d2.evaluate(&ctx).map_err(|e| e.to_string()))?;
    // As bare text.
    if !any_clash(ts) {
        let text = render::render_tpl(s, ts).text;
        let d: hcl::Template = text.parse().map_err(|e| Fail::new("rejected", format!("{text:?}: {e}")))?;
        chk("parsed", &text, d.evaluate(&ctx).map_err(|e| e.to_string()))?;
    } else {
        c.label("clash");
    }
    // In quotes.
    let unwrap = matches!(ts, [T::Interp(..)]);
    let q = E::Tpl(ts.to_vec());
    let text = render::render_expr(s, &q).text;
    let x: hcl::Expression = text.parse().map_err(|e| Fail::new("rejected", format!("{text}: {e}")))?;
    let got = x.evaluate(&ctx);
    if unwrap {
        c.label("unwrapped");
        let w = refeval::eval(env, &q);
        if let Err(m) = agree(&w, &got) {
            fail!("unwrap", "{text} {m}");
        }
        if let hcl::Expression::TemplateExpr(t) = &x {
            let d = hcl::Template::from_expr(t).map_err(|e| Fail::new("from_expr", format!("{text}: {e}")))?;
            chk("from_expr", &text, d.evaluate(&ctx).map_err(|e| e.to_string()))?;
        }
    } else {
        let got = match got {
            Ok(hcl::Value::String(s)) => Ok(s),
            Ok(v) => fail!("render:quoted", "{text} gives {v:?}"),
            Err(e) => Err(e.to_string()),
        };
        chk("quoted", &text, got)?;
    }
    Ok(())
}

fn tpl_render(s: &mut Src, c: &mut Case) -> Res {
    let env = geneval::env(s);
    let ts = Eg::new(s, &env).template(false, 6);
    check_tpl(s, c, &env, &ts)
}

/// Templates of simple parts, with all kinds of space around the markers.
fn tpl_strip(s: &mut Src, c: &mut Case) -> Res {
    fn lit(s: &mut Src) -> String {
        let mut out = String::new();
        let mut n = 0;
        while s.more(n, 3, 8) {
            n += 1;
            out.push_str(s.pick(&["x", " ", "\n", "\t", "\u{a0}", "\r\n", "\r", "\u{2028}", "\u{85}", "\u{b}", "é"]));
        }
        out
    }
    fn elems(s: &mut Src, depth: usize) -> Vec<T> {
        let mut out: Vec<T> = Vec::new();
        let mut n = 0;
        while s.more(n, 3, 5) {
            n += 1;
            out.push(T::Lit(lit(s)));
            out.push(match s.weighted(&[4, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
                0 => T::Interp(E::Str((*s.pick(&["", " ", "v", "\n"])).into()), gen::strip(s)),
                1 => {
                    let then = elems(s, depth - 1);
                    let els = s.bool().then(|| elems(s, depth - 1));
                    let s_else = if els.is_some() { gen::strip(s) } else { (false, false) };
                    T::If { cond: E::Bool(s.bool()), then, els, s_if: gen::strip(s), s_else, s_end: gen::strip(s) }
                }
                _ => {
                    let n = s.below(3);
                    let coll = E::Arr((0..n).map(|i| E::Num(N::U(i as u64))).collect());
                    T::For { key: None, val: "v".into(), coll, body: elems(s, depth - 1), s_for: gen::strip(s), s_end: gen::strip(s) }
                }
            });
        }
        out.push(T::Lit(lit(s)));
        merge(&out)
    }
    let ts = elems(s, 2);
    let env = Env::default();
    check_tpl(s, c, &env, &ts)
}

fn tpl_heredoc(s: &mut Src, c: &mut Case) -> Res {
    let env = geneval::env(s);
    let mut h = if s.bool() {
        Eg::new(s, &env).heredoc()
    } else {
        let mut h = Gen::new(s).heredoc();
        // Interpolations without undefined names.
        fn simple(ts: &[T]) -> Vec<T> {
            ts.iter()
                .map(|t| match t {
                    T::Lit(s) => T::Lit(s.clone()),
                    T::Interp(_, s) => T::Interp(E::Str(" i ".into()), *s),
                    T::If { then, els, s_if, s_else, s_end, .. } => {
                        T::If { cond: E::Bool(then.len() % 2 == 0), then: simple(then), els: els.as_ref().map(|e| simple(e)), s_if: *s_if, s_else: *s_else, s_end: *s_end }
                    }
                    T::For { key, val, body, s_for, s_end, .. } => {
                        T::For { key: key.clone(), val: val.clone(), coll: E::Arr(vec![E::Null, E::Null]), body: simple(body), s_for: *s_for, s_end: *s_end }
                    }
                })
                .collect()
        }
        h.tpl = simple(&h.tpl);
        h
    };
    let unicode_space = s.chance(1, 6);
    if unicode_space {
        let sp = *s.pick(&["\t", "\u{a0}", "\u{2003}", "\u{3000}"]);
        h.tpl = gen::map_lits(&h.tpl, &|l| l.replace("  ", &format!(" {sp}")));
    }
    if s.chance(1, 5) {
        // All lines, or those that follow certain text.
        c.label("crlf");
        let k = *s.pick(&["\n", "\n\n", "a\n", " \n"]);
        h.tpl = gen::map_lits(&h.tpl, &|l| l.replace(k, &k.replace('\n', "\r\n")));
    }
    if gen::has_delim_line(&h.tpl, &h.delim) || any_clash(&h.tpl) {
        c.discard = true;
        return Ok(());
    }
    tpl_labels(&h.tpl, c);
    let ctx = geneval::context(&env);
    if h.flush && common_indent(&h.tpl) > 0 {
        c.label("dedented");
        c.nontrivial = true;
    }
    let e = E::Heredoc(Box::new(h.clone()));
    let want = refeval::eval(&env, &e);
    c.label(if want.is_ok() { "text" } else { "error" });
    let text = format!("v = {}", render::render_expr(s, &e).text.trim_start());
    let text = render_attr(s, &e).unwrap_or(text);
    c.input = text.clone();
    let b: hcl::Body = text.parse().map_err(|x| Fail::new("rejected", format!("{text}: {x}")))?;
    let x = b.attributes().next().map(|a| a.expr().clone()).ok_or_else(|| Fail::new("rejected", "no attribute"))?;
    let got = no_panic(|| x.evaluate(&ctx)).map_err(|m| Fail::new("panic", m))?;
    if let Err(m) = agree(&want, &got) {
        fail!("heredoc:parsed", "{text} {m}");
    }
    // Data model heredoc, in both modes.
    let d = build::d_expr(&e);
    let got = d.evaluate(&ctx);
    if let Err(m) = agree(&want, &got) {
        fail!("heredoc:built", "{d:?} {m}");
    }
    // Only a template, not unwrapped.
    if let hcl::Expression::TemplateExpr(t) = &d {
        let want = Ev::new(&env).template(&if h.flush { dedented(&merge(&h.tpl)) } else { h.tpl.clone() });
        let t = hcl::Template::from_expr(t).map_err(|e| Fail::new("from_expr", e.to_string()))?;
        let got = t.evaluate(&ctx);
        ensure!(want.is_ok() == got.is_ok() && (want.is_err() || want.as_ref().ok() == got.as_ref().ok()), "heredoc:from_expr", "{d:?} gives {got:?}, want {want:?}");
    }
    // Editing model.
    let d = hcl::Expression::from(build::expr(&e));
    let got = d.evaluate(&ctx);
    if let Err(m) = agree(&want, &got) {
        fail!("heredoc:converted", "{d:?} {m}");
    }
    Ok(())
}

fn render_attr(s: &mut Src, e: &E) -> Option<String> {
    Some(render::render_body(s, &[S::Attr("v".into(), e.clone())], false).text)
}

// --- C12 ------------------------------------------------------------------------------------------

/// The reference of evaluation in place: what is left of the expression, and the failures.
fn partial_expr(env: &Env, e: &E) -> (E, Vec<Er>) {
    if matches!(e, E::Null | E::Bool(_) | E::Num(_) | E::Str(_)) {
        return (e.clone(), vec![]);
    }
    let mut errs = Vec::new();
    let mut sub = |e: &E| {
        let (x, er) = partial_expr(env, e);
        errs.extend(er);
        x
    };
    let left = match e {
        E::Arr(v) => E::Arr(v.iter().map(&mut sub).collect()),
        E::Obj(v) => E::Obj(
            v.iter()
                .map(|(k, v)| {
                    let k = match k {
                        K::Id(s) => K::Id(s.clone()),
                        K::Ex(e) => K::Ex(sub(e)),
                    };
                    (k, sub(v))
                })
                .collect(),
        ),
        E::Trav(b, ops) => E::Trav(
            b.clone(),
            ops.iter()
                .map(|o| match o {
                    Op::Index(e) => Op::Index(sub(e)),
                    o => o.clone(),
                })
                .collect(),
        ),
        E::Call(n, a, x) => E::Call(n.clone(), a.iter().map(&mut sub).collect(), *x),
        E::Paren(e) => E::Paren(Box::new(sub(e))),
        E::Un(o, e) => E::Un(*o, Box::new(sub(e))),
        E::Bin(l, o, r) => {
            let l = sub(l);
            E::Bin(Box::new(l), *o, Box::new(sub(r)))
        }
        E::Cond(c) => match refeval::eval(env, &c.0) {
            Ok(V::Bool(b)) => {
                let (x, y) = if b { (sub(&c.1), c.2.clone()) } else { (c.1.clone(), sub(&c.2)) };
                E::Cond(Box::new((E::Bool(b), x, y)))
            }
            Ok(_) => {
                errs.push(Er::Type);
                e.clone()
            }
            Err(er) => {
                errs.push(er);
                e.clone()
            }
        },
        E::For(f) => {
            let coll = sub(&f.coll);
            let mut f = f.clone();
            f.coll = coll;
            E::For(f)
        }
        e => e.clone(),
    };
    // What follows a splat is not needed if there are no elements.
    if !errs.is_empty() && !(matches!(left, E::Trav(..)) && refeval::eval(env, &left).is_ok()) {
        return (left, errs);
    }
    match refeval::eval(env, &left) {
        Ok(v) => (v.lit(), vec![]),
        Err(er) => (left, vec![er]),
    }
}

fn partial_body(env: &Env, b: &[S], errs: &mut Vec<Er>) -> Vec<S> {
    b.iter()
        .map(|s| match s {
            S::Attr(k, e) => {
                let (x, er) = partial_expr(env, e);
                errs.extend(er);
                S::Attr(k.clone(), x)
            }
            S::Block(b) => S::Block(Blk { body: partial_body(env, &b.body, errs), ..b.clone() }),
        })
        .collect()
}

fn partial_tpl(env: &Env, ts: &[T], errs: &mut Vec<Er>) -> Vec<T> {
    let mut sub = |e: &E, errs: &mut Vec<Er>| {
        let (x, er) = partial_expr(env, e);
        errs.extend(er);
        x
    };
    ts.iter()
        .map(|t| match t {
            T::Lit(s) => T::Lit(s.clone()),
            T::Interp(e, s) => T::Interp(sub(e, errs), *s),
            T::If { cond, then, els, s_if, s_else, s_end } => {
                let cond = sub(cond, errs);
                let then = partial_tpl(env, then, errs);
                let els = els.as_ref().map(|e| partial_tpl(env, e, errs));
                T::If { cond, then, els, s_if: *s_if, s_else: *s_else, s_end: *s_end }
            }
            T::For { key, val, coll, body, s_for, s_end } => {
                let coll = sub(coll, errs);
                // The loop variables are not known outside of the directive.
                T::For { key: key.clone(), val: val.clone(), coll, body: body.clone(), s_for: *s_for, s_end: *s_end }
            }
        })
        .collect()
}

fn kinds_of(errs: &[Er]) -> Vec<String> {
    let mut v: Vec<String> = errs
        .iter()
        .map(|e| match e {
            Er::UndefVar(n) => format!("variable {n}"),
            Er::UndefFn(n) => format!("function {}", n.join("::")),
            _ => "other".into(),
        })
        .collect();
    v.sort();
    v
}

fn kinds_got(errs: &hcl::eval::Errors) -> Vec<String> {
    let mut v: Vec<String> = errs
        .iter()
        .map(|e| match e.kind() {
            ErrorKind::UndefinedVar(n) => format!("variable {n}"),
            ErrorKind::UndefinedFunc(n) => format!("function {n}"),
            _ => "other".into(),
        })
        .collect();
    v.sort();
    v
}

/// Split the environment: what is known first, everything.
fn split_env(s: &mut Src, env: &Env) -> Env {
    let mut first = Env::default();
    for (k, v) in &env.vars {
        if s.chance(2, 3) {
            first.vars.insert(k.clone(), v.clone());
        }
    }
    for f in &env.funs {
        if s.chance(4, 5) {
            first.funs.push(f.clone());
        }
    }
    first
}

/// Objects two of whose keys evaluate alike cannot keep both entries.
fn key_merge(env: &Env, b: &[S]) -> bool {
    let mut hit = false;
    walk_body(b, &mut |e| {
        if let E::Obj(v) = e {
            let ks: Vec<String> = v
                .iter()
                .filter_map(|(k, _)| match k {
                    K::Id(s) => Some(format!("id {s}")),
                    K::Ex(e) => refeval::eval(env, e).ok().map(|v| format!("{v:?}")),
                })
                .collect();
            hit |= ks.iter().enumerate().any(|(i, k)| ks[..i].contains(k));
        }
    });
    hit
}

fn partial(s: &mut Src, c: &mut Case) -> Res {
    let full = geneval::env(s);
    let first = split_env(s, &full);
    let mut g = Eg::new(s, &full);
    g.noise = 4;
    let b = g.body(2);
    let (ctx1, ctx2) = (geneval::context(&first), geneval::context(&full));
    let mut errs = Vec::new();
    let left = partial_body(&first, &b, &mut errs);
    let n = b.len();
    c.nontrivial = !errs.is_empty() && key_norm(&norm_body(&left)) != key_norm(&norm_body(&b));
    c.label(if errs.is_empty() { "complete" } else { "partial" });
    if errs.len() > 1 {
        c.label("several-failures");
    }
    let merging = key_merge(&first, &b);
    if merging {
        c.label("equal-keys");
    }
    let text = render::render_body(s, &b, false).text;
    c.input = format!("{text}\nfirst {:?}\nall {:?}", first.vars, full.vars);
    let orig = if s.bool() { text.parse::<hcl::Body>().map_err(|e| Fail::new("rejected", format!("{text}: {e}")))? } else { build::d_body(&b) };
    let mut x = orig.clone();
    let r = no_panic(|| x.evaluate_in_place(&ctx1)).map_err(|m| Fail::new("panic", format!("{text} panics: {m}")))?;
    let whole = orig.evaluate(&ctx1);
    match &r {
        Ok(()) => {
            ensure!(errs.is_empty(), "errors", "{text}\nreported nothing, want {errs:?}");
            ensure!(whole.as_ref().is_ok_and(|w| *w == x), "complete", "{text}\nin place {x:?}, whole {whole:?}");
        }
        Err(e) => {
            let _ = format!("{e} {e:?}");
            ensure!(e.len() == e.iter().count() && e.len() > 0, "errors", "{} errors", e.len());
            ensure!(kinds_got(e) == kinds_of(&errs), "errors", "{text}\nreported {:?}, want {errs:?}", kinds_got(e));
            ensure!(whole.is_err(), "complete", "{text}\nfails in place ({e}) and not as a whole");
        }
    }
    let got = reify::d_body(&x).map_err(|m| Fail::new("residual", m))?;
    if !merging {
        let (g, w) = (key_norm(&map_body(&got, &meaning_read)), key_norm(&map_body(&left, &meaning)));
        ensure!(g == w, "residual", "{text}\nleaves {x:?}\n{g:?}\nwant {w:?}");
    }
    // Attribute by attribute.
    if n > 0 && r.is_err() {
        for (o, x) in orig.attributes().zip(x.attributes()) {
            ensure!(o.key() == x.key(), "structure", "{text}: attributes changed");
            match o.expr().evaluate(&ctx1) {
                Ok(v) => ensure!(*x.expr() == hcl::Expression::from(v.clone()), "replaced", "{} left as {}, its value is {v:?}", o.expr(), x.expr()),
                Err(_) => {}
            }
        }
    }
    // Finish.
    let want = orig.evaluate(&ctx2);
    let fin = x.evaluate(&ctx2);
    match (&want, &fin) {
        (Ok(a), Ok(b)) => ensure!(a == b, "finish", "{text}\nfinishes as {b:?}, want {a:?}"),
        (Err(_), Err(_)) => {}
        _ => fail!("finish", "{text}\nleft {x:?}\nfinishes as {fin:?}, want {want:?}"),
    }
    let mut y = x.clone();
    let r2 = y.evaluate_in_place(&ctx2);
    ensure!(r2.is_ok() == want.is_ok(), "finish", "{text}\nin place {r2:?}, whole {want:?}");
    if let Ok(w) = &want {
        ensure!(y == *w, "finish", "{text}\nin place {y:?}, whole {w:?}");
        c.label("finished");
    }
    Ok(())
}

fn partial_template(s: &mut Src, c: &mut Case) -> Res {
    let full = geneval::env(s);
    let first = split_env(s, &full);
    let mut g = Eg::new(s, &full);
    g.noise = 4;
    let ts = g.template(false, 5);
    let (ctx1, ctx2) = (geneval::context(&first), geneval::context(&full));
    let mut errs = Vec::new();
    let left = partial_tpl(&first, &ts, &mut errs);
    c.nontrivial = !errs.is_empty() && left != ts;
    c.label(if errs.is_empty() { "complete" } else { "partial" });
    let orig = build::d_template(&ts);
    c.input = format!("{orig}\nfirst {:?}\nall {:?}", first.vars, full.vars);
    let mut x = orig.clone();
    let r = no_panic(|| x.evaluate_in_place(&ctx1)).map_err(|m| Fail::new("panic", m))?;
    match &r {
        Ok(()) => ensure!(errs.is_empty(), "errors", "{orig} reported nothing, want {errs:?}"),
        Err(e) => ensure!(kinds_got(e) == kinds_of(&errs), "errors", "{orig} reported {:?}, want {errs:?}", kinds_got(e)),
    }
    let (a, b) = (orig.evaluate(&ctx2), x.evaluate(&ctx2));
    ensure!(a.is_ok() == b.is_ok() && (a.is_err() || a == b), "finish", "{orig} left as {x} finishes as {b:?}, want {a:?}");
    Ok(())
}

fn deserialize(s: &mut Src, c: &mut Case) -> Res {
    let env = geneval::env(s);
    let mut g = Eg::new(s, &env);
    g.noise = 4;
    let b = g.body(1);
    let ctx = geneval::context(&env);
    let text = render::render_body(s, &b, false).text;
    c.input = format!("{text}\nwith {:?}", env.vars);
    let body: hcl::Body = text.parse().map_err(|e| Fail::new("rejected", format!("{text}: {e}")))?;
    let whole = body.evaluate(&ctx);
    let v: Result<hcl::Value, _> = hcl::eval::from_str(&text, &ctx);
    let bb: Result<hcl::Body, _> = hcl::eval::from_str(&text, &ctx);
    let out = hcl::eval::to_string(&body, &ctx);
    c.nontrivial = whole.is_ok() && b.len() > 1;
    match whole {
        Err(_) => {
            c.label("error");
            ensure!(v.is_err() && bb.is_err() && out.is_err(), "deserialize", "{text}\nhas no value and reads as {v:?}");
        }
        Ok(w) => {
            c.label("value");
            let want: hcl::Value = hcl::from_body(w.clone()).map_err(|e| Fail::new("deserialize", e.to_string()))?;
            ensure!(v.as_ref().ok() == Some(&want), "deserialize", "{text}\nreads as {v:?}, want {want:?}");
            ensure!(bb.as_ref().ok() == Some(&w), "deserialize", "{text}\nreads as {bb:?}, want {w:?}");
            // Attributes carry the value of the reference.
            let mut ev = Ev::new(&env);
            for s in &b {
                if let S::Attr(k, e) = s {
                    if b.iter().any(|o| matches!(o, S::Block(b) if b.ident == *k)) {
                        continue;
                    }
                    let r = ev.expr(e).map_err(|e| Fail::new("deserialize", format!("{e:?}")))?;
                    let g = want.as_object().and_then(|o| o.get(k)).map(V::of);
                    ensure!(g.as_ref().is_some_and(|g| g.same(&r)), "deserialize", "{text}\n{k} reads as {g:?}, want {r:?}");
                }
            }
            let out = out.map_err(|e| Fail::new("serialize", e.to_string()))?;
            let back: hcl::Body = out.parse().map_err(|e| Fail::new("serialize", format!("{out}: {e}")))?;
            let (x, y) = (reify::d_body(&back).map_err(|m| Fail::new("serialize", m))?, reify::d_body(&w).map_err(|m| Fail::new("serialize", m))?);
            ensure!(key_norm(&x) == key_norm(&y), "serialize", "{text}\nis written as {out}");
        }
    }
    Ok(())
}

// --- C20 ------------------------------------------------------------------------------------------

fn definite(p: &P) -> bool {
    !matches!(p, P::Any)
}

fn call(s: &mut Src, c: &mut Case) -> Res {
    let mut env = geneval::env(s);
    let name: Vec<String> = s.pick(&[vec!["f"], vec!["ns", "f"], vec!["a", "b", "c"], vec!["sum"]]).iter().map(|x| x.to_string()).collect();
    env.funs.retain(|f| f.name != name);
    // An earlier definition of the same name is replaced.
    if s.chance(1, 10) {
        let f = geneval::fun(s, name.clone());
        env.funs.push(f);
    }
    let f = geneval::fun(s, name.clone());
    env.funs.push(f.clone());
    let mut g = Eg::new(s, &env);
    g.fuel /= 2;
    g.noise = 2;
    let e = g.call_of(&f, 2);
    let mut ev = Ev::new(&env);
    let want = ev.expr(&e);
    let ran = ev.log.last().is_some_and(|r| r.body == f.body) && !matches!(want, Err(Er::Args(_) | Er::UndefVar(_) | Er::UndefFn(_) | Er::Type));
    c.label(match &want {
        Ok(_) => "accepted",
        Err(Er::Args(n)) if *n == name => "refused",
        Err(Er::Func(n, _)) if *n == name => "failed",
        _ => "argument-error",
    });
    c.nontrivial = (ran || matches!(want, Err(Er::Args(_)))) && (f.params.iter().any(definite) || f.variadic.as_ref().is_some_and(definite));
    if f.variadic.is_some() {
        c.label("variadic");
    }
    let expand = matches!(&e, E::Call(_, _, true));
    if expand {
        c.label("expanded");
    }
    let ctx = geneval::context(&env);
    let text = render::render_expr(s, &e).text;
    c.input = format!("{text} with {f:?}");
    let parsed: hcl::Expression = text.parse().map_err(|x| Fail::new("rejected", format!("{text}: {x}")))?;
    for (how, x) in [("parsed", parsed), ("built", build::d_expr(&e))] {
        geneval::take_log();
        let got = no_panic(|| x.evaluate(&ctx)).map_err(|m| Fail::new("panic", format!("{x} panics: {m}")))?;
        let log = geneval::take_log();
        if let Err(m) = agree(&want, &got) {
            fail!(format!("call:{how}"), "{x} {m} (signature {f:?})");
        }
        if !matches!(want, Err(ref er) if !matches!(er, Er::Args(_) | Er::Func(..))) {
            ensure!(sorted(log.clone()) == sorted(ev.log.clone()), "calls", "{x} called {log:?}, want {:?} (signature {f:?})", ev.log);
        }
        match (&want, &got) {
            (Err(Er::Func(n, m)), Err(g)) => match g.kind() {
                ErrorKind::FuncCall(gn, gm) => ensure!(gm == m && gn.to_string().replace(' ', "") == n.join("::"), "error", "{x} fails with {g}, want {m}"),
                k => fail!("error", "{x} fails with {k:?}, want {m}"),
            },
            (Err(Er::Args(n)), Err(g)) => match g.kind() {
                ErrorKind::FuncCall(gn, m) => {
                    ensure!(gn.to_string().replace(' ', "") == n.join("::"), "error", "{x} fails with {g}");
                    let numbers = |m: &str| m.split(|c: char| !c.is_alphanumeric()).map(String::from).collect::<Vec<_>>();
                    let named = match ev.refused {
                        // The argument itself comes after its position.
                        Some(refeval::Refused::Position(p)) => numbers(m).iter().find(|w| w.bytes().all(|b| b.is_ascii_digit()) && !w.is_empty()).is_some_and(|w| *w == p.to_string()),
                        Some(refeval::Refused::Number(a, b)) => numbers(m).contains(&a.to_string()) && numbers(m).contains(&b.to_string()),
                        None => true,
                    };
                    ensure!(named, "error", "{x} fails with {m}, but is refused for {:?} (signature {f:?})", ev.refused);
                }
                k => fail!("error", "{x} fails with {k:?}"),
            },
            (Err(Er::UndefFn(n)), Err(g)) => {
                ensure!(matches!(g.kind(), ErrorKind::UndefinedFunc(x) if x.to_string().replace(' ', "") == n.join("::")), "error", "{x} fails with {g:?}");
            }
            _ => {}
        }
    }
    Ok(())
}

/// Calls within calls, loops, templates and operations, through text, in place and whole.
fn nested_calls(s: &mut Src, c: &mut Case) -> Res {
    let mut env = geneval::env(s);
    for f in &mut env.funs {
        f.body = if f.body == refeval::Body::Fail { refeval::Body::List } else { f.body };
    }
    let mut g = Eg::new(s, &env);
    g.noise = 0;
    let mut v = vec![g.sig_call()];
    while g.s.more(v.len(), 1, 3) {
        g.fuel += 5;
        v.push(match g.s.below(3) {
            0 => {
                let e = g.sig_call();
                geneval::cond(E::Bool(true), e, E::Call(vec!["first".into()], vec![E::Num(N::U(1))], false))
            }
            1 => {
                let e = g.sig_call();
                E::For(Box::new(ForE { key_var: None, val_var: "v".into(), coll: E::Arr(vec![E::Num(N::U(1)), E::Str("x".into())]), key: None, val: e, grouping: false, cond: None }))
            }
            _ => g.expr(Ty::Str),
        });
    }
    let e = E::Arr(v);
    let mut ev = Ev::new(&env);
    let want = ev.expr(&e);
    c.label(if want.is_ok() { "value" } else { "error" });
    c.nontrivial = want.is_ok() && ev.log.iter().any(|r| env.funs.iter().any(|f| f.body == r.body && f.params.iter().any(definite)));
    let ctx: Context = geneval::context(&env);
    let text = render::render_expr(s, &e).text;
    c.input = text.clone();
    let x: hcl::Expression = text.parse().map_err(|x| Fail::new("rejected", format!("{text}: {x}")))?;
    geneval::take_log();
    let got = x.evaluate(&ctx);
    let log = geneval::take_log();
    if let Err(m) = agree(&want, &got) {
        fail!("nested", "{x} {m}");
    }
    if want.is_ok() {
        ensure!(sorted(log.clone()) == sorted(ev.log.clone()), "calls", "{x} called {log:?}, want {:?}", ev.log);
    }
    Ok(())
}
