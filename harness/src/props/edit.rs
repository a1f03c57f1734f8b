//! C06: containers behave like plain lists and insertion-ordered maps under any history of edits,
//! and what was not touched keeps its text.

use crate::engine::{Case, Fail, Prop, Res, Test};
use crate::gen::Gen;
use crate::model::*;
use crate::props::parse::{doc, labels_body};
use crate::props::t;
use crate::src::Src;
use crate::{build, ensure, fail, reify};
use hcl_edit::expr as ee;
use hcl_edit::structure as es;
use hcl_edit::template as et;
use hcl_edit::Ident;

pub fn add(p: &mut Vec<Prop>, ts: &mut Vec<Test>) {
    p.push(Prop { id: "C06", rule: "a history of at least four operations that changed something" });
    ts.push(t("C06", "parsed", 60_000, 600_000, c06_parsed));
    ts.push(t("C06", "built", 40_000, 400_000, c06_built));
    ts.push(t("C06", "body", 60_000, 600_000, c06_body));
    ts.push(t("C06", "array", 30_000, 300_000, c06_array));
    ts.push(t("C06", "args", 30_000, 300_000, c06_args));
    ts.push(t("C06", "template", 30_000, 300_000, c06_template));
    ts.push(t("C06", "object", 40_000, 400_000, c06_object));
    ts.push(t("C06", "data", 40_000, 400_000, c06_data));
}

// --- What must keep its text ----------------------------------------------------------------------

/// The text of a node as it was before the history, if nothing within it was touched since.
#[derive(Clone, Debug, Default)]
struct P {
    text: Option<String>,
    kids: Vec<P>,
}

fn group(kids: Vec<P>) -> P {
    P { text: None, kids }
}

fn p_expr(e: &ee::Expression) -> P {
    use ee::Expression as X;
    let kids = match e {
        X::Null(_) | X::Bool(_) | X::Number(_) | X::String(_) | X::Variable(_) => vec![],
        X::Array(a) => a.iter().map(p_expr).collect(),
        X::Object(o) => o.iter().map(|(k, v)| p_item(k, v)).collect(),
        X::StringTemplate(t) => t.iter().map(p_element).collect(),
        X::HeredocTemplate(h) => h.template.iter().map(p_element).collect(),
        X::Parenthesis(p) => vec![p_expr(p.inner())],
        X::Conditional(c) => vec![p_expr(&c.cond_expr), p_expr(&c.true_expr), p_expr(&c.false_expr)],
        X::FuncCall(f) => f.args.iter().map(p_expr).collect(),
        X::Traversal(t) => {
            let mut v = vec![p_expr(&t.expr)];
            for o in &t.operators {
                if let ee::TraversalOperator::Index(e) = o.value() {
                    v.push(p_expr(e));
                }
            }
            v
        }
        X::UnaryOp(u) => vec![p_expr(&u.expr)],
        X::BinaryOp(b) => vec![p_expr(&b.lhs_expr), p_expr(&b.rhs_expr)],
        X::ForExpr(f) => {
            let mut v = vec![p_expr(&f.intro.collection_expr)];
            v.extend(f.key_expr.as_ref().map(p_expr));
            v.push(p_expr(&f.value_expr));
            v.extend(f.cond.as_ref().map(|c| p_expr(&c.expr)));
            v
        }
    };
    P { text: Some(e.to_string()), kids }
}

fn p_item(k: &ee::ObjectKey, v: &ee::ObjectValue) -> P {
    let key = match k {
        ee::ObjectKey::Ident(_) => P::default(),
        ee::ObjectKey::Expression(e) => p_expr(e),
    };
    group(vec![key, p_expr(v.expr())])
}

fn p_element(e: &et::Element) -> P {
    match e {
        et::Element::Literal(_) => P::default(),
        et::Element::Interpolation(i) => group(vec![p_expr(&i.expr)]),
        et::Element::Directive(d) => match &**d {
            et::Directive::If(d) => group(vec![
                p_expr(&d.if_expr.cond_expr),
                group(d.if_expr.template.iter().map(p_element).collect()),
                group(d.else_expr.iter().flat_map(|e| e.template.iter().map(p_element)).collect()),
            ]),
            et::Directive::For(d) => {
                group(vec![p_expr(&d.for_expr.collection_expr), group(d.for_expr.template.iter().map(p_element).collect())])
            }
        },
    }
}

fn p_structure(s: &es::Structure) -> P {
    let kids = match s {
        es::Structure::Attribute(a) => vec![p_expr(&a.value)],
        es::Structure::Block(b) => vec![p_body(&b.body)],
    };
    // A body writes the text of its structures followed by line breaks.
    let mut text = es::Body::from(vec![s.clone()]).to_string();
    text.pop();
    P { text: Some(text), kids }
}

fn p_body(b: &es::Body) -> P {
    group(b.iter().map(p_structure).collect())
}

/// The texts that must occur, in order.
fn untouched<'a>(p: &'a P, out: &mut Vec<&'a str>) {
    match &p.text {
        Some(t) => out.push(t),
        None => p.kids.iter().for_each(|k| untouched(k, out)),
    }
}

fn kept(p: &P, text: &str) -> Res {
    let mut all = Vec::new();
    untouched(p, &mut all);
    let mut rest = text;
    for t in &all {
        match rest.find(t) {
            Some(i) => rest = &rest[i + t.len()..],
            None => fail!("touched", "{t:?} was not touched, but is not found in its place\nprints {text:?}\nuntouched {all:?}"),
        }
    }
    Ok(())
}

// --- Comparison -----------------------------------------------------------------------------------

fn canon(e: &E) -> E {
    map_tpls(e, &|v| merge(&v))
}

fn canon_key(k: &K) -> K {
    match k {
        K::Id(s) => K::Id(s.clone()),
        K::Ex(e) => K::Ex(canon(e)),
    }
}

fn canon_t(t: &T) -> T {
    map_elems(std::slice::from_ref(t), &|v| merge_inner(&v)).into_iter().next().unwrap()
}

/// Merges the literals of directives, but keeps an element that stands alone.
fn merge_inner(v: &[T]) -> Vec<T> {
    if let [T::Lit(_)] = v {
        return v.to_vec();
    }
    merge(v)
}

fn canon_s(s: &S) -> S {
    match s {
        S::Attr(k, e) => S::Attr(k.clone(), canon(e)),
        S::Block(b) => S::Block(Blk { oneline: false, body: b.body.iter().map(canon_s).collect(), ..b.clone() }),
    }
}

fn canon_body(b: &[S]) -> Vec<S> {
    b.iter().map(canon_s).collect()
}

fn element(e: &et::Element) -> T {
    match e {
        et::Element::Literal(s) => T::Lit(s.value().clone()),
        e => reify::elements(std::iter::once(e)).remove(0),
    }
}

fn same_elem(a: &et::Element, b: &T) -> bool {
    match (element(a), b) {
        (T::Lit(a), T::Lit(b)) => a == *b,
        (a, b) => a == canon_t(b),
    }
}

/// Text that cannot be read back as it starts like a for expression.
fn leads_with_for(e: &E) -> bool {
    match e {
        E::Var(v) => v == "for",
        E::Bin(l, ..) => leads_with_for(l),
        E::Cond(c) => leads_with_for(&c.0),
        E::Trav(b, _) => leads_with_for(b),
        E::Call(n, ..) => n[0] == "for",
        _ => false,
    }
}

fn unreadable(b: &[S]) -> bool {
    let mut bad = false;
    walk_body(b, &mut |e| match e {
        E::Arr(v) => bad |= v.first().is_some_and(leads_with_for),
        E::Obj(v) => bad |= matches!(v.first(), Some((K::Ex(e), _)) if leads_with_for(e)),
        _ => {}
    });
    bad
}

/// What can be read back of calls: there is nothing to expand without arguments.
fn readable(e: &E) -> E {
    map_expr(e, &|e| match e {
        E::Call(n, a, _) if a.is_empty() => E::Call(n, a, false),
        e => e,
    })
}

// --- Observers ------------------------------------------------------------------------------------

fn see_body(r: &es::Body, m: &[S]) -> Res {
    let m = &canon_body(m)[..];
    ensure!(r.len() == m.len() && r.is_empty() == m.is_empty(), "body-len", "len {} is_empty {} for {m:?}", r.len(), r.is_empty());
    for i in 0..=m.len() + 1 {
        ensure!(r.get(i).map(reify::structure).as_ref() == m.get(i), "body-get", "get({i}) is {:?} of {m:?}", r.get(i).map(reify::structure));
    }
    let it = |v: Vec<S>, what: &str, want: &[S]| -> Res {
        ensure!(v == want, "body-iter", "{what}: {v:?}\nwant {want:?}");
        Ok(())
    };
    it(r.iter().map(reify::structure).collect(), "iter", m)?;
    it(r.into_iter().map(reify::structure).collect(), "into_iter of a reference", m)?;
    it(r.clone().into_iter().map(|s| reify::structure(&s)).collect(), "into_iter", m)?;
    let attrs: Vec<S> = m.iter().filter(|s| matches!(s, S::Attr(..))).cloned().collect();
    let blocks: Vec<S> = m.iter().filter(|s| matches!(s, S::Block(..))).cloned().collect();
    let attr = |a: &es::Attribute| S::Attr(a.key.as_str().into(), reify::expr(&a.value));
    it(r.attributes().map(attr).collect(), "attributes", &attrs)?;
    it(r.blocks().map(|b| S::Block(reify::block(b))).collect(), "blocks", &blocks)?;
    it(r.clone().into_attributes().map(|a| attr(&a)).collect(), "into_attributes", &attrs)?;
    it(r.clone().into_blocks().map(|b| S::Block(reify::block(&b))).collect(), "into_blocks", &blocks)?;
    let mut names: Vec<&str> = vec!["absent", ""];
    for s in m {
        names.push(match s {
            S::Attr(k, _) => k,
            S::Block(b) => &b.ident,
        });
    }
    for n in names {
        let a = attrs.iter().find(|s| matches!(s, S::Attr(k, _) if k == n));
        ensure!(r.get_attribute(n).map(attr).as_ref() == a, "get-attribute", "get_attribute({n:?}) is {:?} of {m:?}", r.get_attribute(n).map(attr));
        ensure!(r.has_attribute(n) == a.is_some(), "has-attribute", "has_attribute({n:?}) is {} of {m:?}", r.has_attribute(n));
        let b: Vec<S> = blocks.iter().filter(|s| matches!(s, S::Block(b) if b.ident == n)).cloned().collect();
        it(r.get_blocks(n).map(|b| S::Block(reify::block(b))).collect(), "get_blocks", &b)?;
        ensure!(r.has_blocks(n) == !b.is_empty(), "has-blocks", "has_blocks({n:?}) is {} of {m:?}", r.has_blocks(n));
    }
    for (s, m) in r.iter().zip(m) {
        let is = (s.is_attribute(), s.is_block(), s.as_attribute().is_some(), s.as_block().is_some());
        let attr = matches!(m, S::Attr(..));
        ensure!(is == (attr, !attr, attr, !attr), "structure-kind", "{is:?} for {m:?}");
        ensure!(s.clone().into_attribute().is_ok() == attr && s.clone().into_block().is_ok() != attr, "structure-kind", "into_* for {m:?}");
        if let (Some(b), S::Block(m)) = (s.as_block(), m) {
            see_labels(b, m)?;
        }
    }
    Ok(())
}

fn see_labels(b: &es::Block, m: &Blk) -> Res {
    let have: Vec<&str> = m.labels.iter().map(L::text).collect();
    ensure!(b.is_labeled() == !have.is_empty(), "is-labeled", "{} for {have:?}", b.is_labeled());
    ensure!(b.has_ident(&m.ident) && !b.has_ident("absent") && !b.has_ident(""), "has-ident", "{:?}", m.ident);
    let mut asked: Vec<Vec<&str>> = (0..=have.len()).map(|n| have[..n].to_vec()).collect();
    for n in 0..have.len() {
        asked.push(have[n..].to_vec());
        let mut other = have.clone();
        other[n] = "absent";
        asked.push(other);
    }
    let mut more = have.clone();
    more.push("absent");
    asked.push(more);
    let mut rev = have.clone();
    rev.reverse();
    asked.push(rev);
    for a in asked {
        let (starts, exact) = (have.starts_with(&a), have == a);
        // No labels are the start of any labels.
        ensure!(b.has_labels(&a) == starts, "has-labels", "has_labels({a:?}) is {} for {have:?}", b.has_labels(&a));
        ensure!(b.has_exact_labels(&a) == exact, "has-exact-labels", "has_exact_labels({a:?}) is {} for {have:?}", b.has_exact_labels(&a));
    }
    for (r, m) in b.labels.iter().zip(&m.labels) {
        let id = matches!(m, L::Id(_));
        ensure!(r.as_str() == m.text() && r.is_ident() == id && r.is_string() != id, "label", "{r:?} for {m:?}");
    }
    Ok(())
}

macro_rules! see_list {
    ($r:expr, $m:expr, $same:expr) => {{
        let (r, m) = (&*$r, &$m[..]);
        ensure!(r.len() == m.len() && r.is_empty() == m.is_empty(), "list-len", "len {} is_empty {} for {m:?}", r.len(), r.is_empty());
        for i in 0..=m.len() + 1 {
            let ok = match (r.get(i), m.get(i)) {
                (Some(a), Some(b)) => $same(a, b),
                (None, None) => true,
                _ => false,
            };
            ensure!(ok, "list-get", "get({i}) is {:?} of {m:?}", r.get(i));
        }
        let n = r.iter().count();
        ensure!(n == m.len() && r.iter().zip(m).all(|(a, b)| $same(a, b)), "list-iter", "iter: {:?} of {m:?}", r.iter().collect::<Vec<_>>());
        let n = r.into_iter().count();
        ensure!(n == m.len() && r.into_iter().zip(m).all(|(a, b)| $same(a, b)), "list-iter", "into_iter of a reference: {:?} of {m:?}", r.iter().collect::<Vec<_>>());
        let own: Vec<_> = r.clone().into_iter().collect();
        ensure!(own.len() == m.len() && own.iter().zip(m).all(|(a, b)| $same(a, b)), "list-iter", "into_iter: {own:?} of {m:?}");
        let mut copy = r.clone();
        ensure!(copy.iter_mut().count() == m.len() && copy.iter_mut().zip(m).all(|(a, b)| $same(a, b)), "list-iter", "iter_mut: {copy:?} of {m:?}");
        for i in 0..=m.len() {
            let ok = match (copy.get_mut(i), m.get(i)) {
                (Some(a), Some(b)) => $same(a, b),
                (None, None) => true,
                _ => false,
            };
            ensure!(ok, "list-get", "get_mut({i}) of {m:?}");
        }
    }};
}

fn same_expr(a: &ee::Expression, b: &E) -> bool {
    reify::expr(a) == canon(b)
}

fn see_template(r: &et::Template, m: &[T]) -> Res {
    see_list!(r, m, same_elem);
    let single = r.as_single_element();
    ensure!(single.is_some() == (m.len() == 1), "single-element", "{single:?} of {m:?}");
    ensure!(single.is_none_or(|e| same_elem(e, &m[0])), "single-element", "{single:?} of {m:?}");
    ensure!(r.clone().as_single_element_mut().is_some() == (m.len() == 1), "single-element", "mutable: of {m:?}");
    for (e, m) in r.iter().zip(m) {
        let is = (e.is_literal(), e.is_interpolation(), e.is_directive());
        let has = (e.as_literal().is_some(), e.as_interpolation().is_some(), e.as_directive().is_some());
        let want = (matches!(m, T::Lit(_)), matches!(m, T::Interp(..)), matches!(m, T::If { .. } | T::For { .. }));
        ensure!(is == want && has == want, "element-kind", "{is:?} {has:?} for {m:?}");
    }
    Ok(())
}

fn see_object(r: &ee::Object, m: &[(K, E)]) -> Res {
    ensure!(r.len() == m.len() && r.is_empty() == m.is_empty(), "object-len", "len {} for {m:?}", r.len());
    let want: Vec<(K, E)> = m.iter().map(|(k, e)| (canon_key(k), canon(e))).collect();
    let got: Vec<(K, E)> = r.iter().map(|(k, v)| (reify::key(k), reify::expr(v.expr()))).collect();
    ensure!(got == want, "object-iter", "iter: {got:?}\nwant {want:?}");
    let got: Vec<(K, E)> = r.into_iter().map(|(k, v)| (reify::key(k), reify::expr(v.expr()))).collect();
    ensure!(got == want, "object-iter", "into_iter of a reference: {got:?}\nwant {want:?}");
    let got: Vec<(K, E)> = r.clone().into_iter().map(|(k, v)| (reify::key(&k), reify::expr(&v.into_expr()))).collect();
    ensure!(got == want, "object-iter", "into_iter: {got:?}\nwant {want:?}");
    let mut copy = r.clone();
    let got: Vec<(K, E)> = copy.iter_mut().map(|(k, v)| (reify::key(k.get()), reify::expr(v.expr_mut()))).collect();
    ensure!(got == want, "object-iter", "iter_mut: {got:?}\nwant {want:?}");
    for ((k, _), (mk, mv)) in r.iter().zip(&want) {
        ensure!(r.contains_key(k), "object-get", "contains_key({mk:?}) is false");
        ensure!(r.get(k).map(|v| reify::expr(v.expr())).as_ref() == Some(mv), "object-get", "get({mk:?}) is {:?}, want {mv:?}", r.get(k));
        let kv = r.get_key_value(k).map(|(k, v)| (reify::key(k), reify::expr(v.expr())));
        ensure!(kv == Some((mk.clone(), mv.clone())), "object-get", "get_key_value({mk:?}) is {kv:?}, want {mv:?}");
        ensure!(copy.get_mut(k).map(|v| reify::expr(v.expr())).as_ref() == Some(mv), "object-get", "get_mut({mk:?})");
        let kv = copy.get_key_value_mut(k).map(|(k, v)| (reify::key(k.get()), reify::expr(v.expr())));
        ensure!(kv == Some((mk.clone(), mv.clone())), "object-get", "get_key_value_mut({mk:?}) is {kv:?}, want {mv:?}");
    }
    let no = ee::ObjectKey::from(Ident::new("absent"));
    ensure!(!r.contains_key(&no) && r.get(&no).is_none() && r.get_key_value(&no).is_none(), "object-get", "an absent key is found");
    ensure!(copy.get_mut(&no).is_none() && copy.get_key_value_mut(&no).is_none(), "object-get", "an absent key is found");
    ensure!(copy.remove(&no).is_none() && copy.remove_entry(&no).is_none() && copy.len() == m.len(), "object-remove", "an absent key is removed");
    Ok(())
}

/// Every container of the document.
fn see_all(r: &es::Body, m: &[S]) -> Res {
    see_body(r, m)?;
    for (r, m) in r.iter().zip(m) {
        match (r, m) {
            (es::Structure::Attribute(a), S::Attr(_, e)) => see_expr(&a.value, e)?,
            (es::Structure::Block(b), S::Block(m)) => see_all(&b.body, &m.body)?,
            _ => fail!("body-get", "{r:?} for {m:?}"),
        }
    }
    Ok(())
}

fn see_expr(r: &ee::Expression, m: &E) -> Res {
    use ee::Expression as X;
    match (r, m) {
        (X::Array(r), E::Arr(m)) => {
            see_list!(r, m, same_expr);
            r.iter().zip(m).try_for_each(|(r, m)| see_expr(r, m))
        }
        (X::FuncCall(r), E::Call(_, m, x)) => {
            see_list!(&r.args, m, same_expr);
            ensure!(r.args.expand_final() == *x, "expand", "expand_final is {} for {m:?}", r.args.expand_final());
            r.args.iter().zip(m).try_for_each(|(r, m)| see_expr(r, m))
        }
        (X::Object(r), E::Obj(m)) => {
            see_object(r, m)?;
            r.iter().zip(m).try_for_each(|((_, r), (_, m))| see_expr(r.expr(), m))
        }
        (X::StringTemplate(r), E::Tpl(m)) => see_template(r, m),
        (X::HeredocTemplate(_), E::Heredoc(_)) => {
            ensure!(same_expr(r, m), "access", "another heredoc: {r:?} for {m:?}");
            Ok(())
        }
        (X::Parenthesis(r), E::Paren(m)) => see_expr(r.inner(), m),
        _ => Ok(()),
    }
}

// --- Operations -----------------------------------------------------------------------------------

const KEYS: [&str; 6] = ["a", "b", "c", "foo", "for", "x-1"];

struct Hist<'a> {
    s: &'a mut Src,
    log: Vec<String>,
    /// Operations that changed something.
    done: usize,
}

impl Hist<'_> {
    fn gen(&mut self) -> Gen<'_> {
        let mut g = Gen::new(self.s);
        g.fuel = 3;
        g.plain_flush = true;
        g
    }
    /// Stands anywhere an expression can.
    fn atom(&mut self) -> E {
        match self.s.below(5) {
            0 => E::Var((*self.s.pick(&["v", "w", "x-y"])).into()),
            1 => E::Str(self.gen().string()),
            2 => E::Arr(vec![E::Num(N::U(self.s.draw(100)))]),
            3 => E::Call(vec!["f".into()], vec![E::Var("v".into())], false),
            _ => E::Paren(Box::new(E::Bin(Box::new(E::Var("v".into())), Bin::Add, Box::new(E::Num(N::U(1)))))),
        }
    }
    /// Stands on its own.
    fn value(&mut self, heredocs: bool) -> E {
        loop {
            let mut g = self.gen();
            g.heredocs = heredocs;
            // Their text is what is written.
            let e = unflush(&g.value());
            let mut bad = leads_with_for(&e);
            walk(&e, &mut |e| bad |= unreadable(&[S::Attr(String::new(), e.clone())]));
            if !bad {
                return e;
            }
            if self.s.chance(1, 3) {
                return E::Null;
            }
        }
    }
    fn key(&mut self) -> K {
        match self.s.below(4) {
            0 => K::Ex(E::Str((*self.s.pick(&["a", "b", "", "x y"])).into())),
            1 => K::Ex(E::Num(N::U(self.s.draw(3)))),
            _ => K::Id((*self.s.pick(&KEYS)).into()),
        }
    }
    fn elem(&mut self) -> T {
        let ts = self.gen().elements(false, 2);
        match ts.into_iter().next() {
            Some(t) if !unreadable(&[S::Attr(String::new(), E::Tpl(vec![t.clone()]))]) => match unflush(&E::Tpl(vec![t])) {
                E::Tpl(mut v) => v.remove(0),
                _ => unreachable!(),
            },
            _ => T::Lit("lit".into()),
        }
    }
    fn structure(&mut self, m: &[S]) -> S {
        loop {
            let s = self.any_structure(m);
            if !unreadable(std::slice::from_ref(&s)) {
                return s;
            }
            if self.s.chance(1, 3) {
                return S::Attr("z".into(), E::Null);
            }
        }
    }
    fn any_structure(&mut self, m: &[S]) -> S {
        if self.s.chance(1, 3) {
            let mut b = self.gen().block(1);
            b.body = map_body(&b.body, &unflush);
            if self.s.bool() {
                b.ident = (*self.s.pick(&KEYS)).into();
            }
            return S::Block(b);
        }
        let keys: Vec<&String> = m
            .iter()
            .filter_map(|s| match s {
                S::Attr(k, _) => Some(k),
                S::Block(b) => Some(&b.ident),
            })
            .collect();
        let k = if !keys.is_empty() && self.s.chance(1, 2) { (*self.s.pick(&keys)).clone() } else { (*self.s.pick(&KEYS)).into() };
        S::Attr(k, self.value(true))
    }
    fn note(&mut self, what: impl Into<String>) {
        self.log.push(what.into());
    }
    fn did(&mut self, what: impl Into<String>) {
        self.done += 1;
        self.note(what);
    }
}

/// Operations on what holds a list. `$new` gives a model element, `$mk` what it stands for, `$p` its text.
macro_rules! list_op {
    ($h:expr, $r:expr, $m:expr, $p:expr, $new:expr, $mk:expr, $prov:expr, $same:expr, $get:expr) => {{
        let (h, r, m, p) = (&mut *$h, &mut *$r, &mut *$m, &mut *$p);
        let n = m.len();
        match h.s.weighted(&[4, 4, 2, 4, 2, 2, 1, 2]) {
            0 => {
                let x = $new(h);
                h.did(format!("push {x:?}"));
                let y = $mk(&x);
                p.kids.push($prov(&y));
                r.push(y);
                m.push(x);
            }
            1 => {
                let (i, x) = (h.s.below(n + 1), $new(h));
                h.did(format!("insert {i} {x:?}"));
                let y = $mk(&x);
                p.kids.insert(i, $prov(&y));
                r.insert(i, y);
                m.insert(i, x);
            }
            2 => {
                h.did("pop");
                let (got, want) = (r.pop(), m.pop());
                p.kids.pop();
                ensure!(got.is_some() == want.is_some() && got.iter().zip(&want).all(|(a, b)| $same(a, b)), "list-pop", "pop gives {got:?}, want {want:?}");
            }
            3 if n > 0 => {
                let i = h.s.below(n);
                h.did(format!("remove {i}"));
                let (got, want) = (r.remove(i), m.remove(i));
                p.kids.remove(i);
                ensure!($same(&got, &want), "list-remove", "remove({i}) gives {got:?}, want {want:?}");
            }
            4 if n > 0 => {
                let (i, x) = (h.s.below(n), $new(h));
                h.did(format!("replace {i} {x:?}"));
                let y = $mk(&x);
                p.kids[i] = $prov(&y);
                if h.s.bool() {
                    *r.get_mut(i).ok_or_else(|| Fail::new("list-get", format!("get_mut({i}) is None")))? = y;
                } else {
                    *r.iter_mut().nth(i).ok_or_else(|| Fail::new("list-iter", format!("iter_mut().nth({i}) is None")))? = y;
                }
                m[i] = x;
            }
            5 => {
                let k = h.s.below(4);
                let xs: Vec<_> = (0..k).map(|_| $new(h)).collect();
                h.did(format!("extend {xs:?}"));
                let ys: Vec<_> = xs.iter().map($mk).collect();
                p.kids.extend(ys.iter().map($prov));
                r.extend(ys);
                m.extend(xs);
            }
            6 if h.s.chance(1, 4) => {
                h.did("clear");
                r.clear();
                m.clear();
                p.kids.clear();
            }
            _ if n > 0 => {
                // Take one out and put it elsewhere.
                let (i, j) = (h.s.below(n), h.s.below(n));
                h.did(format!("move {i} {j}"));
                let x = r.remove(i);
                r.insert(j, x);
                let x = m.remove(i);
                m.insert(j, x);
                let x = p.kids.remove(i);
                p.kids.insert(j, x);
            }
            _ => {}
        }
        $get(r, m)?;
    }};
}

fn op_array(h: &mut Hist, r: &mut ee::Array, m: &mut Vec<E>, p: &mut P) -> Res {
    if h.s.chance(1, 12) {
        let yes = h.s.bool();
        h.did(format!("trailing comma {yes}"));
        r.set_trailing_comma(yes);
        ensure!(r.trailing_comma() == yes, "trailing-comma", "is {}", !yes);
    }
    list_op!(h, r, m, p, |h: &mut Hist| h.value(true), build::expr, p_expr, same_expr, |r: &ee::Array, m: &Vec<E>| -> Res {
        see_list!(r, m, same_expr);
        Ok(())
    });
    Ok(())
}

fn op_args(h: &mut Hist, r: &mut ee::FuncArgs, m: &mut Vec<E>, x: &mut bool, p: &mut P) -> Res {
    if h.s.chance(1, 8) {
        let yes = h.s.bool();
        h.did(format!("expand {yes}"));
        r.set_expand_final(yes);
        *x = yes;
        ensure!(r.expand_final() == yes, "expand", "is {}", !yes);
    }
    if h.s.chance(1, 12) {
        let yes = h.s.bool();
        h.did(format!("trailing comma {yes}"));
        r.set_trailing_comma(yes);
        ensure!(r.trailing_comma() == yes, "trailing-comma", "is {}", !yes);
    }
    list_op!(h, r, m, p, |h: &mut Hist| h.value(true), build::expr, p_expr, same_expr, |r: &ee::FuncArgs, m: &Vec<E>| -> Res {
        see_list!(r, m, same_expr);
        Ok(())
    });
    // The delimiter line of a heredoc has no place for the ellipsis.
    if *x && matches!(m.last(), Some(E::Heredoc(_))) {
        r.set_expand_final(false);
        *x = false;
    }
    Ok(())
}

fn op_template(h: &mut Hist, r: &mut et::Template, m: &mut Vec<T>, p: &mut P) -> Res {
    list_op!(h, r, m, p, |h: &mut Hist| h.elem(), build::element, p_element, same_elem, see_template);
    Ok(())
}

fn op_object(h: &mut Hist, r: &mut ee::Object, m: &mut Vec<(K, E)>, p: &mut P) -> Res {
    let n = m.len();
    match h.s.weighted(&[5, 3, 3, 3, 2, 1]) {
        0 => {
            // Keys that are there already keep their place.
            let (k, e) = (h.key(), h.value(true));
            h.did(format!("insert {k:?} {e:?}"));
            insert_item(r, m, p, k, e)?;
        }
        1 | 2 if n > 0 => {
            let i = h.s.below(n);
            h.did(format!("remove {i}"));
            let key = r.iter().nth(i).unwrap().0.clone();
            let (k, e) = m.remove(i);
            p.kids.remove(i);
            if h.s.bool() {
                let got = r.remove(&key);
                ensure!(got.as_ref().is_some_and(|v| same_expr(v.expr(), &e)), "object-remove", "remove({k:?}) gives {got:?}, want {e:?}");
            } else {
                let got = r.remove_entry(&key);
                ensure!(got.as_ref().is_some_and(|(gk, v)| reify::key(gk) == canon_key(&k) && same_expr(v.expr(), &e)), "object-remove", "remove_entry({k:?}) gives {got:?}, want {e:?}");
            }
        }
        3 if n > 0 => {
            let (i, e) = (h.s.below(n), h.value(false));
            h.did(format!("replace {i} {e:?}"));
            let x = build::expr(&e);
            p.kids[i].kids[1] = p_expr(&x);
            let key = r.iter().nth(i).unwrap().0.clone();
            let none = || Fail::new("object-get", format!("item {i} is not found"));
            match h.s.below(3) {
                0 => *r.get_mut(&key).ok_or_else(none)?.expr_mut() = x,
                1 => *r.get_key_value_mut(&key).ok_or_else(none)?.1.expr_mut() = x,
                _ => *r.iter_mut().nth(i).ok_or_else(none)?.1.expr_mut() = x,
            }
            m[i].1 = e;
        }
        4 => {
            let k = h.s.below(4);
            let items: Vec<(K, E)> = (0..k).map(|_| (h.key(), h.value(true))).collect();
            h.did(format!("extend {items:?}"));
            r.extend(items.iter().map(|(k, e)| (build::key(k), build::expr(e))));
            for (k, e) in items {
                let x = p_item(&build::key(&k), &build::expr(&e).into());
                match m.iter().position(|(o, _)| *o == k) {
                    Some(i) => {
                        m[i].1 = e;
                        p.kids[i] = x;
                    }
                    None => {
                        m.push((k, e));
                        p.kids.push(x);
                    }
                }
            }
        }
        5 if h.s.chance(1, 3) => {
            h.did("clear");
            r.clear();
            m.clear();
            p.kids.clear();
        }
        _ => {}
    }
    see_object(r, m)
}

fn insert_item(r: &mut ee::Object, m: &mut Vec<(K, E)>, p: &mut P, k: K, e: E) -> Res {
    let v = ee::ObjectValue::new(build::expr(&e));
    let text = p_item(&build::key(&k), &v);
    let got = r.insert(build::key(&k), v);
    match m.iter_mut().position(|(o, _)| *o == k) {
        Some(i) => {
            let old = std::mem::replace(&mut m[i].1, e);
            p.kids[i] = text;
            ensure!(got.as_ref().is_some_and(|v| same_expr(v.expr(), &old)), "object-insert", "insert({k:?}) gives {got:?}, want {old:?}");
        }
        None => {
            ensure!(got.is_none(), "object-insert", "insert({k:?}) gives {got:?} for a new key");
            m.push((k, e));
            p.kids.push(text);
        }
    }
    Ok(())
}

fn op_body(h: &mut Hist, r: &mut es::Body, m: &mut Vec<S>, p: &mut P) -> Res {
    let n = m.len();
    let taken = |m: &[S], s: &S| matches!(s, S::Attr(k, _) if m.iter().any(|o| matches!(o, S::Attr(o, _) if o == k)));
    let refused = |got: Result<(), es::Attribute>, dup: bool, s: &S| -> Res {
        match got {
            Ok(()) => ensure!(!dup, "duplicate", "{s:?} is accepted twice"),
            Err(a) => ensure!(dup && reify::structure(&a.clone().into()) == canon_s(s), "duplicate", "{s:?} is refused, giving back {a:?}"),
        }
        Ok(())
    };
    match h.s.weighted(&[3, 3, 3, 3, 2, 4, 3, 2, 2, 2, 2, 1, 1]) {
        op @ 0..=3 => {
            let x = h.structure(m);
            let dup = taken(m, &x);
            let y = build::structure(&x);
            let i = if op < 2 { n } else { h.s.below(n + 1) };
            h.did(format!("{} {i} {x:?}", ["push", "try_push", "insert", "try_insert"][op]));
            let text = p_structure(&y);
            match op {
                0 => r.push(y),
                1 => refused(r.try_push(y), dup, &x)?,
                2 => r.insert(i, y),
                _ => refused(r.try_insert(i, y), dup, &x)?,
            }
            if !dup {
                m.insert(i, x);
                p.kids.insert(i, text);
            }
        }
        4 => {
            h.did("pop");
            let (got, want) = (r.pop(), m.pop());
            p.kids.pop();
            ensure!(got.as_ref().map(reify::structure) == want.as_ref().map(canon_s), "body-pop", "pop gives {got:?}, want {want:?}");
        }
        5 if n > 0 => {
            let i = h.s.below(n);
            h.did(format!("remove {i}"));
            let (got, want) = (r.remove(i), m.remove(i));
            p.kids.remove(i);
            ensure!(reify::structure(&got) == canon_s(&want), "body-remove", "remove({i}) gives {got:?}, want {want:?}");
        }
        6 => {
            // A block may go by that name, too.
            let k = name(h, m);
            h.did(format!("remove_attribute {k}"));
            let got = r.remove_attribute(&k);
            let i = m.iter().position(|s| matches!(s, S::Attr(o, _) if *o == k));
            ensure!(got.is_some() == i.is_some(), "remove-attribute", "remove_attribute({k:?}) gives {got:?}");
            if let (Some(i), Some(a)) = (i, got) {
                p.kids.remove(i);
                let want = m.remove(i);
                ensure!(reify::structure(&a.clone().into()) == canon_s(&want), "remove-attribute", "remove_attribute({k:?}) gives {a:?}, want {want:?}");
            }
        }
        7 => {
            let k = name(h, m);
            h.did(format!("remove_blocks {k}"));
            let got: Vec<S> = r.remove_blocks(&k).iter().map(|b| S::Block(reify::block(b))).collect();
            let mut want = Vec::new();
            let mut i = 0;
            while i < m.len() {
                if matches!(&m[i], S::Block(b) if b.ident == k) {
                    want.push(canon_s(&m.remove(i)));
                    p.kids.remove(i);
                } else {
                    i += 1;
                }
            }
            ensure!(got == want, "remove-blocks", "remove_blocks({k:?}) gives {got:?}, want {want:?}");
        }
        8 => {
            let mut xs = Vec::new();
            if h.s.chance(1, 3) {
                // Many of a kind.
                let n = h.s.range(2, 12);
                for i in 0..n {
                    let k = (*h.s.pick(&KEYS[..2])).to_string();
                    let l = L::Id(format!("l{i}"));
                    xs.push(if h.s.chance(1, 8) { h.structure(m) } else { S::Block(Blk { ident: k, labels: vec![l], body: vec![], oneline: true }) });
                }
            } else {
                let k = h.s.below(4);
                for _ in 0..k {
                    xs.push(h.structure(m));
                }
            }
            h.did(format!("extend {xs:?}"));
            r.extend(xs.iter().map(build::structure));
            for x in xs {
                if !taken(m, &x) {
                    p.kids.push(p_structure(&build::structure(&x)));
                    m.push(x);
                }
            }
        }
        9 if n > 0 => {
            let (i, j) = (h.s.below(n), h.s.below(n));
            h.did(format!("move {i} {j}"));
            let x = r.remove(i);
            r.insert(j, x);
            let x = m.remove(i);
            m.insert(j, x);
            let x = p.kids.remove(i);
            p.kids.insert(j, x);
        }
        10 if n > 0 => {
            // A block never clashes.
            let i = h.s.below(n);
            let mut b = h.gen().block(1);
            b.body = map_body(&b.body, &unflush);
            if unreadable(&b.body) {
                b.body.clear();
            }
            let x = S::Block(b);
            h.did(format!("replace {i} {x:?}"));
            let y = build::structure(&x);
            p.kids[i] = p_structure(&y);
            *r.get_mut(i).ok_or_else(|| Fail::new("body-get", format!("get_mut({i}) is None")))? = y;
            m[i] = x;
        }
        11 if h.s.chance(1, 4) => {
            h.did("clear");
            r.clear();
            m.clear();
            p.kids.clear();
        }
        12 => {
            // From its own parts.
            let parts: Vec<es::Structure> = r.clone().into_iter().collect();
            let how = h.s.below(4);
            h.did(format!("rebuild {how}"));
            *r = match how {
                0 => parts.into_iter().collect(),
                1 => es::Body::from(parts),
                2 => es::Body::builder().structures(parts).build(),
                _ => {
                    let mut b = es::Body::builder();
                    for x in parts {
                        b = match x {
                            es::Structure::Attribute(a) => b.attribute(a),
                            es::Structure::Block(x) => b.block(x),
                        };
                    }
                    b.into()
                }
            };
        }
        _ => {}
    }
    see_body(r, m)
}

/// A name that is probably in use.
fn name(h: &mut Hist, m: &[S]) -> String {
    if m.is_empty() || h.s.chance(1, 4) {
        return (*h.s.pick(&KEYS)).into();
    }
    match h.s.pick(m) {
        S::Attr(k, _) => k.clone(),
        S::Block(b) => b.ident.clone(),
    }
}

// --- Getting there --------------------------------------------------------------------------------

/// One operation somewhere within the body.
fn edit_body(h: &mut Hist, r: &mut es::Body, m: &mut Vec<S>, p: &mut P) -> Res {
    p.text = None;
    if m.is_empty() || h.s.chance(2, 5) {
        return op_body(h, r, m, p);
    }
    let i = h.s.below(m.len());
    let len = m.len();
    p.kids[i].text = None;
    h.note(format!("at {i}"));
    let none = |what: &str| Fail::new("body-access", format!("{what} gives nothing for structure {i} of {len}"));
    let nth = |m: &[S], f: &dyn Fn(&S) -> bool| m[..i].iter().filter(|s| f(s)).count();
    let how = h.s.below(5);
    match &m[i] {
        S::Attr(k, _) => {
            let (k, at) = (k.clone(), nth(m, &|s| matches!(s, S::Attr(..))));
            let mut a = match how {
                0 => r.get_attribute_mut(&k).ok_or_else(|| none("get_attribute_mut"))?,
                1 => r.attributes_mut().nth(at).ok_or_else(|| none("attributes_mut"))?,
                2 => {
                    let mut st = r.iter_mut().nth(i).ok_or_else(|| none("iter_mut"))?;
                    ensure!(st.is_attribute() && !st.is_block() && st.as_attribute().is_some() && st.as_block_mut().is_none(), "structure-kind", "of {k}");
                    let mut a = st.as_attribute_mut().ok_or_else(|| none("as_attribute_mut"))?;
                    return edit_slot(h, a.value_mut(), m, i, p);
                }
                _ => {
                    let a = r.get_mut(i).and_then(es::Structure::as_attribute_mut).ok_or_else(|| none("get_mut"))?;
                    return edit_slot(h, &mut a.value, m, i, p);
                }
            };
            ensure!(a.key.as_str() == k && a.get().has_key(&k), "body-access", "attribute {:?} for {k}", a.key);
            edit_slot(h, a.value_mut(), m, i, p)
        }
        S::Block(b) => {
            let id = b.ident.clone();
            let (at, of) = (nth(m, &|s| matches!(s, S::Block(..))), nth(m, &|s| matches!(s, S::Block(b) if b.ident == id)));
            let b = match how {
                0 => r.get_blocks_mut(&id).nth(of).ok_or_else(|| none("get_blocks_mut"))?,
                1 => r.blocks_mut().nth(at).ok_or_else(|| none("blocks_mut"))?,
                2 => {
                    let mut st = r.iter_mut().nth(i).ok_or_else(|| none("iter_mut"))?;
                    ensure!(!st.is_attribute() && st.is_block() && st.as_block().is_some() && st.as_attribute_mut().is_none(), "structure-kind", "of {id}");
                    let b = st.as_block_mut().ok_or_else(|| none("as_block_mut"))?;
                    return edit_block(h, b, m, i, p);
                }
                _ => r.get_mut(i).and_then(es::Structure::as_block_mut).ok_or_else(|| none("get_mut"))?,
            };
            edit_block(h, b, m, i, p)
        }
    }
}

fn edit_block(h: &mut Hist, r: &mut es::Block, m: &mut [S], i: usize, p: &mut P) -> Res {
    let S::Block(m) = &mut m[i] else { fail!("body-access", "no block at {i}") };
    ensure!(reify::block(r) == Blk { oneline: false, body: canon_body(&m.body), ..m.clone() }, "body-access", "another block: {r:?} for {m:?}");
    if h.s.chance(1, 6) {
        match h.s.below(3) {
            0 => {
                let (at, l) = (h.s.below(m.labels.len() + 1), h.gen().label());
                h.did(format!("label {at} {l:?}"));
                r.labels.insert(at, build::label(&l));
                m.labels.insert(at, l);
            }
            1 if !m.labels.is_empty() => {
                let at = h.s.below(m.labels.len());
                h.did(format!("no label {at}"));
                r.labels.remove(at);
                m.labels.remove(at);
            }
            _ => {
                let id = *h.s.pick(&KEYS);
                h.did(format!("ident {id}"));
                r.ident = Ident::new(id).into();
                m.ident = id.into();
            }
        }
        return see_labels(r, m);
    }
    edit_body(h, &mut r.body, &mut m.body, &mut p.kids[i].kids[0])
}

fn edit_slot(h: &mut Hist, r: &mut ee::Expression, m: &mut [S], i: usize, p: &mut P) -> Res {
    let S::Attr(_, e) = &mut m[i] else { fail!("body-access", "no attribute at {i}") };
    ensure!(same_expr(r, e), "body-access", "another value: {r:?} for {e:?}");
    edit_expr(h, r, e, &mut p.kids[i].kids[0])
}

/// Replaces the expression or changes something within it.
fn edit_expr(h: &mut Hist, r: &mut ee::Expression, m: &mut E, p: &mut P) -> Res {
    use ee::Expression as X;
    let leaf = matches!(m, E::Null | E::Bool(_) | E::Num(_) | E::Str(_) | E::Var(_));
    if leaf || h.s.chance(1, 5) {
        let e = h.atom();
        h.did(format!("set {e:?}"));
        *r = build::expr(&e);
        *p = p_expr(r);
        *m = e;
        return Ok(());
    }
    p.text = None;
    let list = h.s.bool();
    match (&mut *r, &mut *m) {
        (X::Array(r), E::Arr(m)) if list || m.is_empty() => return op_array(h, r, m, p),
        (X::FuncCall(r), E::Call(_, m, x)) if list || m.is_empty() => return op_args(h, &mut r.args, m, x, p),
        (X::Object(r), E::Obj(m)) if list || m.is_empty() => return op_object(h, r, m, p),
        (X::StringTemplate(r), E::Tpl(m)) if list || m.is_empty() => return op_template(h, r, m, p),
        _ => {}
    }
    let mut slots = Vec::new();
    slots_expr(r, m, p, &mut slots)?;
    if slots.is_empty() {
        return Ok(());
    }
    let i = h.s.below(slots.len());
    let (r, m, p) = slots.swap_remove(i);
    h.note(format!("in {i}"));
    ensure!(same_expr(r, m), "access", "another expression: {r:?} for {m:?}");
    edit_expr(h, r, m, p)
}

type Slot<'a> = (&'a mut ee::Expression, &'a mut E, &'a mut P);

/// The expressions directly within. Whatever holds them counts as touched.
fn slots_expr<'a>(r: &'a mut ee::Expression, m: &'a mut E, p: &'a mut P, out: &mut Vec<Slot<'a>>) -> Res {
    use ee::Expression as X;
    match (&mut *r, &mut *m) {
        (X::StringTemplate(_), E::Tpl(_)) | (X::HeredocTemplate(_), E::Heredoc(_)) => {
            return match (r, m) {
                (X::StringTemplate(r), E::Tpl(m)) => slots_tpl(r, m, &mut p.kids, out),
                (X::HeredocTemplate(r), E::Heredoc(m)) => slots_tpl(&mut r.template, &mut m.tpl, &mut p.kids, out),
                _ => Ok(()),
            };
        }
        _ => {}
    }
    let mut kids = p.kids.iter_mut();
    let mut kid = || kids.next().expect("a text for each part");
    match (r, m) {
        (X::Array(r), E::Arr(m)) => r.iter_mut().zip(m).for_each(|(r, m)| out.push((r, m, kid()))),
        (X::Object(r), E::Obj(m)) => r.iter_mut().zip(m).for_each(|((_, r), (_, m))| out.push((r.expr_mut(), m, &mut kid().kids[1]))),
        (X::Parenthesis(r), E::Paren(m)) => out.push((r.inner_mut(), m, kid())),
        (X::Conditional(r), E::Cond(m)) => {
            out.push((&mut r.cond_expr, &mut m.0, kid()));
            out.push((&mut r.true_expr, &mut m.1, kid()));
            out.push((&mut r.false_expr, &mut m.2, kid()));
        }
        (X::FuncCall(r), E::Call(_, m, _)) => r.args.iter_mut().zip(m).for_each(|(r, m)| out.push((r, m, kid()))),
        (X::Traversal(r), E::Trav(m, ops)) => {
            out.push((&mut r.expr, m, kid()));
            for (r, m) in r.operators.iter_mut().zip(ops) {
                if let (ee::TraversalOperator::Index(r), Op::Index(m)) = (r.value_mut(), m) {
                    out.push((r, m, kid()));
                }
            }
        }
        (X::UnaryOp(r), E::Un(_, m)) => out.push((&mut r.expr, m, kid())),
        (X::BinaryOp(r), E::Bin(a, _, b)) => {
            out.push((&mut r.lhs_expr, a, kid()));
            out.push((&mut r.rhs_expr, b, kid()));
        }
        (X::ForExpr(r), E::For(m)) => {
            out.push((&mut r.intro.collection_expr, &mut m.coll, kid()));
            if let (Some(r), Some(m)) = (&mut r.key_expr, &mut m.key) {
                out.push((r, m, kid()));
            }
            out.push((&mut r.value_expr, &mut m.val, kid()));
            if let (Some(r), Some(m)) = (&mut r.cond, &mut m.cond) {
                out.push((&mut r.expr, m, kid()));
            }
        }
        (r, m) => fail!("access", "another expression: {r:?} for {m:?}"),
    }
    Ok(())
}

fn slots_tpl<'a>(r: &'a mut et::Template, m: &'a mut [T], p: &'a mut [P], out: &mut Vec<Slot<'a>>) -> Res {
    // Dedenting may leave nothing of a literal.
    let mut parts: Vec<_> = r.iter_mut().zip(p).filter(|(r, _)| !matches!(r, et::Element::Literal(s) if s.is_empty())).collect();
    let n = m.iter().filter(|t| !matches!(t, T::Lit(s) if s.is_empty())).count();
    ensure!(parts.len() == n, "list-len", "{} elements for {m:?}", parts.len());
    let m = m.iter_mut().filter(|t| !matches!(t, T::Lit(s) if s.is_empty()));
    for ((r, p), m) in parts.drain(..).zip(m) {
        match (r, m) {
            (et::Element::Literal(_), T::Lit(_)) => {}
            (et::Element::Interpolation(r), T::Interp(m, _)) => out.push((&mut r.expr, m, &mut p.kids[0])),
            (et::Element::Directive(r), m) => {
                let mut kids = p.kids.iter_mut();
                let mut kid = || kids.next().expect("a text for each part");
                match (&mut **r, m) {
                    (et::Directive::If(r), T::If { cond, then, els, .. }) => {
                        out.push((&mut r.if_expr.cond_expr, cond, kid()));
                        slots_tpl(&mut r.if_expr.template, then, &mut kid().kids, out)?;
                        if let (Some(r), Some(m)) = (&mut r.else_expr, els) {
                            slots_tpl(&mut r.template, m, &mut kid().kids, out)?;
                        }
                    }
                    (et::Directive::For(r), T::For { coll, body, .. }) => {
                        out.push((&mut r.for_expr.collection_expr, coll, kid()));
                        slots_tpl(&mut r.for_expr.template, body, &mut kid().kids, out)?;
                    }
                    (r, m) => fail!("access", "another directive: {r:?} for {m:?}"),
                }
            }
            (r, m) => fail!("access", "another element: {r:?} for {m:?}"),
        }
    }
    Ok(())
}

// --- Histories ------------------------------------------------------------------------------------

/// The history on the document, then what it prints.
fn history(h: &mut Hist, c: &mut Case, r: &mut es::Body, mut m: Vec<S>) -> Res {
    let mut p = p_body(r);
    let mut n = 0;
    while h.s.more(n, 6, 24) {
        n += 1;
        edit_body(h, r, &mut m, &mut p)?;
    }
    c.input.push_str("\n---\n");
    c.input.push_str(&h.log.join("\n"));
    c.nontrivial = h.done >= 4;
    see_all(r, &m)?;
    printed(c, r, &m, &p)
}

fn printed(c: &mut Case, r: &es::Body, m: &[S], p: &P) -> Res {
    let out = r.to_string();
    kept(p, &out)?;
    // Whatever lies between the structures is theirs or the body's.
    let mut want = String::new();
    for s in r {
        want.push_str(&p_structure(s).text.unwrap());
        want.push('\n');
    }
    let tail = out.strip_prefix(want.as_str()).or_else(|| out.strip_prefix(want.strip_suffix('\n')?));
    ensure!(tail.is_some_and(|t| t.trim().is_empty() || t.contains('#') || t.contains('/')), "layout", "prints {out:?}\nits structures {want:?}");
    if unreadable(m) {
        c.label("unreadable");
        return Ok(());
    }
    let b: es::Body = out.parse().map_err(|e| Fail::new("rejected", format!("{out:?} {e}")))?;
    let (got, want) = (map_body(&reify::body(&b), &meaning_read), map_body(m, &|e| meaning_read(&quoted_keys(&readable(e)))));
    let (got, want) = (norm_body(&map_body(&got, &quoted_keys)), norm_body(&want));
    ensure!(got == want, "structure", "prints {out:?}\ngot  {got:?}\nwant {want:?}");
    Ok(())
}

fn c06_parsed(s: &mut Src, c: &mut Case) -> Res {
    let crlf = s.chance(1, 8);
    let (_, d) = doc(s, c, crlf, true);
    let mut r = hcl_edit::parser::parse_body(&d.text).map_err(|e| Fail::new("reject", format!("{e}")))?;
    let m = reify::body(&r);
    let mut h = Hist { s, log: vec![], done: 0 };
    let res = history(&mut h, c, &mut r, m);
    res.map_err(|f| Fail::new(f.sig, format!("{}\nhistory {:#?}", f.msg, h.log)))
}

fn c06_built(s: &mut Src, c: &mut Case) -> Res {
    let b = Gen::new(s).body(3);
    labels_body(c, &b);
    c.input = format!("{b:?}");
    let mut r = build::body(&b);
    let m = reify::body(&r);
    let mut h = Hist { s, log: vec![], done: 0 };
    let res = history(&mut h, c, &mut r, m);
    res.map_err(|f| Fail::new(f.sig, format!("{}\nhistory {:#?}", f.msg, h.log)))
}

/// A history on one container that is the value of an attribute.
fn alone(s: &mut Src, c: &mut Case, start: E, f: &dyn Fn(&mut Hist, &mut ee::Expression, &mut E, &mut P) -> Res) -> Res {
    let body = vec![S::Attr("a".into(), start)];
    // As built, or as read from text.
    let mut r = if s.bool() {
        c.input = format!("{:?}", body[0]);
        build::body(&body)
    } else {
        let d = crate::render::render_body(s, &body, false);
        c.input = d.text.clone();
        hcl_edit::parser::parse_body(&d.text).map_err(|e| Fail::new("reject", format!("{e}")))?
    };
    let mut m = reify::body(&r);
    let mut p = p_body(&r);
    let mut h = Hist { s, log: vec![], done: 0 };
    let res = (|| {
        let Some(mut a) = r.get_attribute_mut("a") else { fail!("access", "no attribute") };
        let S::Attr(_, e) = &mut m[0] else { fail!("access", "no attribute") };
        p.kids[0].text = None;
        let p = &mut p.kids[0].kids[0];
        p.text = None;
        let mut n = 0;
        while h.s.more(n, 6, 24) {
            n += 1;
            f(&mut h, a.value_mut(), e, p)?;
        }
        Ok(())
    })();
    c.input.push_str("\n---\n");
    c.input.push_str(&h.log.join("\n"));
    c.nontrivial = h.done >= 4;
    res.and_then(|()| printed(c, &r, &m, &p)).map_err(|f| Fail::new(f.sig, format!("{}\nhistory {:#?}", f.msg, h.log)))
}

fn another(r: &ee::Expression, m: &E) -> Fail {
    Fail::new("access", format!("another expression: {r:?} for {m:?}"))
}

fn c06_array(s: &mut Src, c: &mut Case) -> Res {
    let start = {
        let mut g = Gen::new(s);
        g.plain_flush = true;
        let mut v = Vec::new();
        while g.s.more(v.len(), 3, 8) {
            v.push(g.value());
        }
        E::Arr(v)
    };
    alone(s, c, start, &|h, r, m, p| match (&mut *r, &mut *m) {
        (ee::Expression::Array(r), E::Arr(m)) => op_array(h, r, m, p),
        _ => Err(another(r, m)),
    })
}

fn c06_args(s: &mut Src, c: &mut Case) -> Res {
    let mut g = Gen::new(s);
    g.plain_flush = true;
    let start = g.call();
    alone(s, c, start, &|h, r, m, p| match (&mut *r, &mut *m) {
        (ee::Expression::FuncCall(r), E::Call(_, m, x)) => op_args(h, &mut r.args, m, x, p),
        _ => Err(another(r, m)),
    })
}

fn c06_template(s: &mut Src, c: &mut Case) -> Res {
    let mut g = Gen::new(s);
    g.plain_flush = true;
    let start = E::Tpl(g.template());
    alone(s, c, start, &|h, r, m, p| match (&mut *r, &mut *m) {
        (ee::Expression::StringTemplate(r), E::Tpl(m)) => op_template(h, r, m, p),
        _ => Err(another(r, m)),
    })
}

fn c06_object(s: &mut Src, c: &mut Case) -> Res {
    let start = {
        let mut h = Hist { s: &mut *s, log: vec![], done: 0 };
        let mut v: Vec<(K, E)> = Vec::new();
        while h.s.more(v.len(), 3, 8) {
            let (k, e) = (h.key(), h.value(true));
            let first = v.is_empty() && k == K::Id("for".into());
            if !first && !v.iter().any(|(o, _)| *o == k) {
                v.push((k, e));
            } else if h.s.chance(1, 3) {
                break;
            }
        }
        E::Obj(v)
    };
    alone(s, c, start, &|h, r, m, p| match (&mut *r, &mut *m) {
        (ee::Expression::Object(r), E::Obj(m)) => op_object(h, r, m, p),
        _ => Err(another(r, m)),
    })
}

fn c06_body(s: &mut Src, c: &mut Case) -> Res {
    let (mut r, m) = if s.bool() {
        let (_, d) = doc(s, c, false, true);
        let r = hcl_edit::parser::parse_body(&d.text).map_err(|e| Fail::new("reject", format!("{e}")))?;
        let m = reify::body(&r);
        (r, m)
    } else {
        (es::Body::new(), vec![])
    };
    let mut m = m;
    let mut p = p_body(&r);
    let mut h = Hist { s, log: vec![], done: 0 };
    let res = (|| {
        let mut n = 0;
        while h.s.more(n, 8, 32) {
            n += 1;
            op_body(&mut h, &mut r, &mut m, &mut p)?;
        }
        Ok(())
    })();
    c.input.push_str("\n---\n");
    c.input.push_str(&h.log.join("\n"));
    c.nontrivial = h.done >= 4;
    res.and_then(|()| printed(c, &r, &m, &p)).map_err(|f| Fail::new(f.sig, format!("{}\nhistory {:#?}", f.msg, h.log)))
}

/// The containers of the data model.
fn c06_data(s: &mut Src, c: &mut Case) -> Res {
    let mut h = Hist { s, log: vec![], done: 0 };
    let mut m: Vec<S> = Vec::new();
    while h.s.more(m.len(), 4, 10) {
        let x = h.any_structure(&[]);
        m.push(x);
    }
    let b = |e: String| Fail::new("data", e);
    // However it is put together, the structures are as given.
    let how = h.s.below(5);
    c.input = format!("{how} {m:?}");
    c.nontrivial = m.len() >= 2;
    let parts: Vec<hcl::Structure> = m.iter().map(build::d_structure).collect();
    let mut r: hcl::Body = match how {
        0 => hcl::Body(parts.clone()),
        1 => parts.iter().cloned().collect(),
        2 => hcl::Body::from(parts.clone()),
        3 => hcl::Body::builder().add_structures(parts.clone()).build(),
        _ => {
            let mut x = hcl::Body::builder();
            for p in parts.clone() {
                x = match p {
                    hcl::Structure::Attribute(a) => x.add_attribute(a),
                    hcl::Structure::Block(b) => x.add_block(b),
                };
            }
            x.build()
        }
    };
    ensure!(r.0 == parts && r.iter().eq(&parts) && r.clone().into_inner() == parts, "data-iter", "{r:?}\nwant {parts:?}");
    ensure!((&r).into_iter().eq(&parts) && r.clone().into_iter().eq(parts.clone()), "data-iter", "{r:?}\nwant {parts:?}");
    ensure!(r.iter_mut().map(|s| s.clone()).eq(parts.clone()), "data-iter", "iter_mut");
    let attrs: Vec<hcl::Attribute> = parts.iter().filter_map(|s| if let hcl::Structure::Attribute(a) = s { Some(a.clone()) } else { None }).collect();
    let blocks: Vec<hcl::Block> = parts.iter().filter_map(|s| if let hcl::Structure::Block(a) = s { Some(a.clone()) } else { None }).collect();
    ensure!(r.attributes().eq(&attrs) && r.clone().into_attributes().eq(attrs.clone()), "data-iter", "attributes of {parts:?}");
    ensure!(r.blocks().eq(&blocks) && r.clone().into_blocks().eq(blocks.clone()), "data-iter", "blocks of {parts:?}");
    ensure!(r.attributes_mut().map(|a| a.clone()).eq(attrs.clone()) && r.blocks_mut().map(|b| b.clone()).eq(blocks.clone()), "data-iter", "mutable, of {parts:?}");
    for (x, m) in parts.iter().zip(&m) {
        let attr = matches!(m, S::Attr(..));
        ensure!(x.is_attribute() == attr && x.is_block() != attr && x.as_attribute().is_some() == attr && x.as_block().is_some() != attr, "structure-kind", "{x:?}");
        ensure!(x.clone().into_attribute().is_some() == attr && x.clone().into_block().is_some() != attr, "structure-kind", "{x:?}");
        let mut y = x.clone();
        ensure!(y.as_attribute_mut().is_some() == attr && y.as_block_mut().is_some() != attr, "structure-kind", "{x:?}");
        match (x, m) {
            (hcl::Structure::Attribute(a), S::Attr(k, e)) => {
                ensure!(a.key() == k && reify::d_expr(a.expr()).map_err(b)? == reify::d_expr(&build::d_expr(e)).map_err(b)?, "data-attribute", "{a:?} for {m:?}");
            }
            (hcl::Structure::Block(x), S::Block(m)) => {
                let labels: Vec<&str> = x.labels().iter().map(hcl::BlockLabel::as_str).collect();
                ensure!(x.identifier() == m.ident && labels.iter().copied().eq(m.labels.iter().map(L::text)), "data-block", "{x:?} for {m:?}");
                ensure!(x.labels().iter().map(|l| l.clone().into_inner()).eq(m.labels.iter().map(|l| l.text().to_string())), "data-block", "{x:?} for {m:?}");
                ensure!(x.body() == &build::d_body(&m.body), "data-block", "{x:?} for {m:?}");
                // The same block, step by step.
                let mut y = hcl::Block::builder(x.identifier.clone());
                if h.s.bool() {
                    y = y.add_labels(x.labels.clone());
                } else {
                    for l in &x.labels {
                        y = y.add_label(l.clone());
                    }
                }
                match h.s.below(3) {
                    0 => y = y.add_structures(x.body.0.clone()),
                    1 => {
                        for p in &x.body.0 {
                            y = match p {
                                hcl::Structure::Attribute(a) => y.add_attribute(a.clone()),
                                hcl::Structure::Block(b) => y.add_block(b.clone()),
                            };
                        }
                    }
                    _ => {
                        for p in &x.body.0 {
                            y = y.add_structure(p.clone());
                        }
                    }
                }
                let y = y.build();
                ensure!(y == *x, "data-block", "built {y:?}\nwant {x:?}");
            }
            _ => fail!("structure-kind", "{x:?} for {m:?}"),
        }
    }
    // Edits through mutable iterators reach the element that was meant.
    let mut want = parts.clone();
    if !want.is_empty() {
        let i = h.s.below(want.len());
        let nth = |f: &dyn Fn(&hcl::Structure) -> bool| parts[..i].iter().filter(|s| f(s)).count();
        match &mut want[i] {
            hcl::Structure::Attribute(a) => {
                a.expr = hcl::Expression::Null;
                let at = nth(&|s| s.is_attribute());
                match h.s.below(2) {
                    0 => r.attributes_mut().nth(at).ok_or_else(|| b("no attribute".into()))?.expr = hcl::Expression::Null,
                    _ => r.iter_mut().nth(i).and_then(|s| s.as_attribute_mut()).ok_or_else(|| b("no attribute".into()))?.expr = hcl::Expression::Null,
                }
            }
            hcl::Structure::Block(x) => {
                x.labels.push("l".into());
                let at = nth(&|s| s.is_block());
                match h.s.below(2) {
                    0 => r.blocks_mut().nth(at).ok_or_else(|| b("no block".into()))?.labels.push("l".into()),
                    _ => r.iter_mut().nth(i).and_then(|s| s.as_block_mut()).ok_or_else(|| b("no block".into()))?.labels.push("l".into()),
                }
            }
        }
        ensure!(r.0 == want, "data-edit", "{r:?}\nwant {want:?}");
    }
    let more: Vec<hcl::Structure> = parts.iter().take(3).cloned().collect();
    want.extend(more.clone());
    r.extend(more);
    ensure!(r.0 == want, "data-edit", "extended: {r:?}\nwant {want:?}");
    Ok(())
}
