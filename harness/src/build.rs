//! Builds documents from the reference tree through the public constructors of both models.

use crate::model::*;
use crate::render;
use crate::src::Src;
use hcl_edit::expr as ee;
use hcl_edit::structure as es;
use hcl_edit::template as et;
use hcl_edit::{Decorated, Ident, Number};

pub fn num(n: &N) -> Number {
    match n {
        N::U(u) => Number::from(*u),
        N::I(i) => Number::from(*i),
        N::F(f) => Number::from_f64(*f).unwrap(),
    }
}

pub fn strip(s: Strip) -> et::Strip {
    match s {
        (false, false) => et::Strip::None,
        (true, false) => et::Strip::Start,
        (false, true) => et::Strip::End,
        (true, true) => et::Strip::Both,
    }
}

pub fn unop(o: Un) -> ee::UnaryOperator {
    match o {
        Un::Neg => ee::UnaryOperator::Neg,
        Un::Not => ee::UnaryOperator::Not,
    }
}

pub fn binop(o: Bin) -> ee::BinaryOperator {
    use ee::BinaryOperator as B;
    match o {
        Bin::Eq => B::Eq,
        Bin::Ne => B::NotEq,
        Bin::Le => B::LessEq,
        Bin::Ge => B::GreaterEq,
        Bin::Lt => B::Less,
        Bin::Gt => B::Greater,
        Bin::Add => B::Plus,
        Bin::Sub => B::Minus,
        Bin::Mul => B::Mul,
        Bin::Div => B::Div,
        Bin::Mod => B::Mod,
        Bin::And => B::And,
        Bin::Or => B::Or,
    }
}

fn id(s: &str) -> Decorated<Ident> {
    Decorated::new(Ident::new(s))
}

// --- editing model -------------------------------------------------------------------------------

pub fn expr(e: &E) -> ee::Expression {
    match e {
        E::Null => ee::Expression::null(),
        E::Bool(b) => (*b).into(),
        E::Num(n) => num(n).into(),
        E::Str(s) => s.as_str().into(),
        E::Arr(v) => v.iter().map(expr).collect::<ee::Array>().into(),
        E::Obj(v) => {
            let mut o = ee::Object::new();
            for (k, v) in v {
                o.insert(key(k), ee::ObjectValue::new(expr(v)));
            }
            o.into()
        }
        E::Tpl(t) => t.iter().map(element).collect::<et::StringTemplate>().into(),
        E::Heredoc(h) => heredoc(h).into(),
        E::Var(v) => Ident::new(v).into(),
        E::Paren(e) => ee::Parenthesis::new(expr(e)).into(),
        E::Call(n, a, x) => {
            let (last, ns) = n.split_last().unwrap();
            let mut name = ee::FuncName::new(Ident::new(last));
            name.set_namespace(ns.iter().map(|n| Ident::new(n)));
            let mut args: ee::FuncArgs = a.iter().map(expr).collect();
            args.set_expand_final(*x);
            ee::FuncCall::new(name, args).into()
        }
        E::Cond(c) => ee::Conditional::new(expr(&c.0), expr(&c.1), expr(&c.2)).into(),
        E::Un(o, e) => ee::UnaryOp::new(unop(*o), expr(e)).into(),
        E::Bin(l, o, r) => ee::BinaryOp::new(expr(l), binop(*o), expr(r)).into(),
        E::For(f) => {
            let mut intro = ee::ForIntro::new(Ident::new(&f.val_var), expr(&f.coll));
            intro.key_var = f.key_var.as_deref().map(id);
            let mut x = ee::ForExpr::new(intro, expr(&f.val));
            x.key_expr = f.key.as_ref().map(expr);
            x.grouping = f.grouping;
            x.cond = f.cond.as_ref().map(|c| ee::ForCond::new(expr(c)));
            x.into()
        }
        E::Trav(b, ops) => ee::Traversal::new(
            expr(b),
            ops.iter()
                .map(|o| {
                    Decorated::new(match o {
                        Op::Attr(n) => ee::TraversalOperator::GetAttr(id(n)),
                        Op::Legacy(n) => ee::TraversalOperator::LegacyIndex((*n).into()),
                        Op::Index(e) => ee::TraversalOperator::Index(expr(e)),
                        Op::AttrSplat => ee::TraversalOperator::AttrSplat(ee::Splat.into()),
                        Op::FullSplat => ee::TraversalOperator::FullSplat(ee::Splat.into()),
                    })
                })
                .collect(),
        )
        .into(),
    }
}

pub fn key(k: &K) -> ee::ObjectKey {
    match k {
        K::Id(n) => Ident::new(n).into(),
        K::Ex(e) => expr(e).into(),
    }
}

pub fn heredoc(h: &Hd) -> et::HeredocTemplate {
    let mut t = et::HeredocTemplate::new(Ident::new(&h.delim), template(&h.tpl));
    if h.flush {
        t.dedent();
        if t.indent().is_none() {
            t.set_indent(0);
        }
    }
    t
}

pub fn template(t: &[T]) -> et::Template {
    t.iter().map(element).collect()
}

pub fn element(t: &T) -> et::Element {
    match t {
        T::Lit(s) => s.as_str().into(),
        T::Interp(e, st) => {
            let mut i = et::Interpolation::new(expr(e));
            i.strip = strip(*st);
            i.into()
        }
        T::If { cond, then, els, s_if, s_else, s_end } => {
            let mut a = et::IfTemplateExpr::new(expr(cond), template(then));
            a.strip = strip(*s_if);
            let b = els.as_ref().map(|e| {
                let mut b = et::ElseTemplateExpr::new(template(e));
                b.strip = strip(*s_else);
                b
            });
            let mut c = et::EndifTemplateExpr::new();
            c.strip = strip(*s_end);
            et::Directive::from(et::IfDirective::new(a, b, c)).into()
        }
        T::For { key, val, coll, body, s_for, s_end } => {
            let mut a = et::ForTemplateExpr::new(key.as_deref().map(id), id(val), expr(coll), template(body));
            a.strip = strip(*s_for);
            let mut c = et::EndforTemplateExpr::new();
            c.strip = strip(*s_end);
            et::Directive::from(et::ForDirective::new(a, c)).into()
        }
    }
}

pub fn label(l: &L) -> es::BlockLabel {
    match l {
        L::Id(n) => Ident::new(n).into(),
        L::Str(s) => s.as_str().into(),
    }
}

pub fn block(b: &Blk) -> es::Block {
    let mut x = es::Block::new(Ident::new(&b.ident));
    x.labels = b.labels.iter().map(label).collect();
    x.body = body(&b.body);
    if b.oneline {
        x.body.set_prefer_oneline(true);
    }
    x
}

pub fn structure(s: &S) -> es::Structure {
    match s {
        S::Attr(k, e) => es::Attribute::new(Ident::new(k), expr(e)).into(),
        S::Block(b) => block(b).into(),
    }
}

pub fn body(b: &[S]) -> es::Body {
    b.iter().map(structure).collect()
}

// --- data model ----------------------------------------------------------------------------------

/// The template as text, in the simplest spelling.
pub fn raw_tpl(t: &[T]) -> String {
    let mut s = Src::replay(Vec::new(), 10);
    render::render_tpl(&mut s, &apart(t, false)).text
}

/// Outside of quotes a `$` directly before an interpolation can only be written as interpolation
/// itself, and likewise a `%` before a directive tag.
pub fn apart(ts: &[T], tag_follows: bool) -> Vec<T> {
    let mut out = Vec::new();
    for (i, t) in ts.iter().enumerate() {
        match t {
            T::Lit(l) => {
                let c = match ts.get(i + 1) {
                    Some(T::Interp(..)) => '$',
                    Some(T::If { .. } | T::For { .. }) => '%',
                    None if tag_follows => '%',
                    _ => '\0',
                };
                let n = if l.ends_with(c) { l.trim_end_matches(['$', '%']) } else { l };
                if n.len() == l.len() {
                    out.push(t.clone());
                } else {
                    out.push(T::Lit(n.to_string()));
                    out.push(T::Interp(E::Str(l[n.len()..].to_string()), (false, false)));
                }
            }
            T::Interp(..) => out.push(t.clone()),
            T::If { cond, then, els, s_if, s_else, s_end } => {
                out.push(T::If { cond: cond.clone(), then: apart(then, true), els: els.as_ref().map(|e| apart(e, true)), s_if: *s_if, s_else: *s_else, s_end: *s_end });
            }
            T::For { key, val, coll, body, s_for, s_end } => {
                out.push(T::For { key: key.clone(), val: val.clone(), coll: coll.clone(), body: apart(body, true), s_for: *s_for, s_end: *s_end });
            }
        }
    }
    merge(&out)
}

fn did(s: &str) -> hcl::Identifier {
    hcl::Identifier::new(s).unwrap()
}

pub fn d_expr(e: &E) -> hcl::Expression {
    use hcl::expr as x;
    match e {
        E::Null => hcl::Expression::Null,
        E::Bool(b) => (*b).into(),
        E::Num(n) => hcl::Expression::Number(num(n)),
        E::Str(s) => s.as_str().into(),
        E::Arr(v) => hcl::Expression::Array(v.iter().map(d_expr).collect()),
        E::Obj(v) => hcl::Expression::Object(v.iter().map(|(k, v)| (d_key(k), d_expr(v))).collect()),
        E::Tpl(t) => x::TemplateExpr::QuotedString(raw_tpl(t)).into(),
        E::Heredoc(h) => x::TemplateExpr::Heredoc(d_heredoc(h)).into(),
        E::Var(v) => x::Variable::new(v.as_str()).unwrap().into(),
        E::Paren(e) => hcl::Expression::Parenthesis(Box::new(d_expr(e))),
        E::Call(n, a, ex) => {
            let (last, ns) = n.split_last().unwrap();
            let name = x::FuncName::new(did(last)).with_namespace(ns.iter().map(|n| did(n)));
            let mut b = x::FuncCall::builder(name);
            for a in a {
                b = b.arg(d_expr(a));
            }
            b.expand_final(*ex).build().into()
        }
        E::Cond(c) => x::Conditional::new(d_expr(&c.0), d_expr(&c.1), d_expr(&c.2)).into(),
        E::Un(o, e) => x::Operation::Unary(x::UnaryOp::new(unop(*o), d_expr(e))).into(),
        E::Bin(l, o, r) => x::Operation::Binary(x::BinaryOp::new(d_expr(l), binop(*o), d_expr(r))).into(),
        E::For(f) => {
            let mut e = x::ForExpr::new(did(&f.val_var), d_expr(&f.coll), d_expr(&f.val)).with_grouping(f.grouping);
            if let Some(k) = &f.key_var {
                e = e.with_key_var(did(k));
            }
            if let Some(k) = &f.key {
                e = e.with_key_expr(d_expr(k));
            }
            if let Some(c) = &f.cond {
                e = e.with_cond_expr(d_expr(c));
            }
            e.into()
        }
        E::Trav(b, ops) => x::Traversal::new(
            d_expr(b),
            ops.iter().map(|o| match o {
                Op::Attr(n) => x::TraversalOperator::GetAttr(did(n)),
                Op::Legacy(n) => x::TraversalOperator::LegacyIndex(*n),
                Op::Index(e) => x::TraversalOperator::Index(d_expr(e)),
                Op::AttrSplat => x::TraversalOperator::AttrSplat,
                Op::FullSplat => x::TraversalOperator::FullSplat,
            }),
        )
        .into(),
    }
}

pub fn d_key(k: &K) -> hcl::ObjectKey {
    match k {
        K::Id(n) => hcl::ObjectKey::Identifier(did(n)),
        K::Ex(e) => hcl::ObjectKey::Expression(d_expr(e)),
    }
}

pub fn d_heredoc(h: &Hd) -> hcl::expr::Heredoc {
    let mode = if h.flush { hcl::expr::HeredocStripMode::Indent } else { hcl::expr::HeredocStripMode::None };
    hcl::expr::Heredoc::new(did(&h.delim), raw_tpl(&h.tpl)).with_strip_mode(mode)
}

pub fn d_template(t: &[T]) -> hcl::Template {
    t.iter().map(d_element).collect()
}

pub fn d_element(t: &T) -> hcl::template::Element {
    use hcl::template as ht;
    match t {
        T::Lit(s) => s.as_str().into(),
        T::Interp(e, st) => ht::Interpolation::new(d_expr(e)).with_strip(strip(*st)).into(),
        T::If { cond, then, els, s_if, s_else, s_end } => {
            let mut d = ht::IfDirective::new(d_expr(cond), d_template(then)).with_if_strip(strip(*s_if)).with_endif_strip(strip(*s_end));
            if let Some(e) = els {
                d = d.with_false_template(d_template(e)).with_else_strip(strip(*s_else));
            }
            ht::Directive::from(d).into()
        }
        T::For { key, val, coll, body, s_for, s_end } => {
            let mut d = ht::ForDirective::new(did(val), d_expr(coll), d_template(body)).with_for_strip(strip(*s_for)).with_endfor_strip(strip(*s_end));
            if let Some(k) = key {
                d = d.with_key_var(did(k));
            }
            ht::Directive::from(d).into()
        }
    }
}

pub fn d_structure(s: &S) -> hcl::Structure {
    match s {
        S::Attr(k, e) => hcl::Attribute::new(did(k), d_expr(e)).into(),
        S::Block(b) => hcl::Block::builder(did(&b.ident))
            .add_labels(b.labels.iter().map(|l| match l {
                L::Id(n) => hcl::BlockLabel::from(did(n)),
                L::Str(s) => hcl::BlockLabel::from(s.as_str()),
            }))
            .add_structures(b.body.iter().map(d_structure))
            .build()
            .into(),
    }
}

pub fn d_body(b: &[S]) -> hcl::Body {
    hcl::Body::builder().add_structures(b.iter().map(d_structure)).build()
}
