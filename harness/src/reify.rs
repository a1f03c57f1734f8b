//! Reads the trees of the crates under test back into the reference tree (canonical form).

use crate::model::*;
use hcl_edit::expr as ee;
use hcl_edit::structure as es;
use hcl_edit::template as et;
use hcl_edit::Number;

pub fn number(n: &Number) -> N {
    if let Some(u) = n.as_u64() {
        N::U(u)
    } else if let Some(i) = n.as_i64() {
        N::I(i)
    } else {
        N::F(n.as_f64().unwrap_or(f64::NAN))
    }
}

pub fn strip(s: et::Strip) -> Strip {
    match s {
        et::Strip::None => (false, false),
        et::Strip::Start => (true, false),
        et::Strip::End => (false, true),
        et::Strip::Both => (true, true),
    }
}

pub fn unop(o: ee::UnaryOperator) -> Un {
    match o {
        ee::UnaryOperator::Neg => Un::Neg,
        ee::UnaryOperator::Not => Un::Not,
    }
}

pub fn binop(o: ee::BinaryOperator) -> Bin {
    use ee::BinaryOperator as B;
    match o {
        B::Eq => Bin::Eq,
        B::NotEq => Bin::Ne,
        B::LessEq => Bin::Le,
        B::GreaterEq => Bin::Ge,
        B::Less => Bin::Lt,
        B::Greater => Bin::Gt,
        B::Plus => Bin::Add,
        B::Minus => Bin::Sub,
        B::Mul => Bin::Mul,
        B::Div => Bin::Div,
        B::Mod => Bin::Mod,
        B::And => Bin::And,
        B::Or => Bin::Or,
    }
}

// --- editing model -----------------------------------------------------------------------------

pub fn expr(e: &ee::Expression) -> E {
    use ee::Expression as X;
    match e {
        X::Null(_) => E::Null,
        X::Bool(b) => E::Bool(*b.value()),
        X::Number(n) => E::Num(number(n.value())),
        X::String(s) => E::Str(s.value().clone()),
        X::Array(a) => E::Arr(a.iter().map(expr).collect()),
        X::Object(o) => E::Obj(o.iter().map(|(k, v)| (key(k), expr(v.expr()))).collect()),
        X::StringTemplate(t) => E::Tpl(elements(t.iter())),
        X::HeredocTemplate(h) => E::Heredoc(Box::new(Hd { delim: h.delimiter.as_str().into(), flush: h.indent().is_some(), tpl: template(&h.template) })),
        X::Parenthesis(p) => E::Paren(Box::new(expr(p.inner()))),
        X::Variable(v) => E::Var(v.as_str().into()),
        X::Conditional(c) => E::Cond(Box::new((expr(&c.cond_expr), expr(&c.true_expr), expr(&c.false_expr)))),
        X::FuncCall(f) => {
            let mut name: Vec<String> = f.name.namespace.iter().map(|i| i.as_str().to_string()).collect();
            name.push(f.name.name.as_str().into());
            E::Call(name, f.args.iter().map(expr).collect(), f.args.expand_final())
        }
        X::Traversal(t) => E::Trav(
            Box::new(expr(&t.expr)),
            t.operators
                .iter()
                .map(|o| match o.value() {
                    ee::TraversalOperator::AttrSplat(_) => Op::AttrSplat,
                    ee::TraversalOperator::FullSplat(_) => Op::FullSplat,
                    ee::TraversalOperator::GetAttr(i) => Op::Attr(i.as_str().into()),
                    ee::TraversalOperator::Index(e) => Op::Index(expr(e)),
                    ee::TraversalOperator::LegacyIndex(n) => Op::Legacy(*n.value()),
                })
                .collect(),
        ),
        X::UnaryOp(u) => E::Un(unop(*u.operator.value()), Box::new(expr(&u.expr))),
        X::BinaryOp(b) => E::Bin(Box::new(expr(&b.lhs_expr)), binop(*b.operator.value()), Box::new(expr(&b.rhs_expr))),
        X::ForExpr(f) => E::For(Box::new(ForE {
            key_var: f.intro.key_var.as_ref().map(|k| k.as_str().into()),
            val_var: f.intro.value_var.as_str().into(),
            coll: expr(&f.intro.collection_expr),
            key: f.key_expr.as_ref().map(expr),
            val: expr(&f.value_expr),
            grouping: f.grouping,
            cond: f.cond.as_ref().map(|c| expr(&c.expr)),
        })),
    }
}

pub fn key(k: &ee::ObjectKey) -> K {
    match k {
        ee::ObjectKey::Ident(i) => K::Id(i.as_str().into()),
        ee::ObjectKey::Expression(e) => K::Ex(expr(e)),
    }
}

pub fn template(t: &et::Template) -> Vec<T> {
    elements(t.iter())
}

pub fn elements<'a>(it: impl Iterator<Item = &'a et::Element>) -> Vec<T> {
    let v: Vec<T> = it.map(element).collect();
    merge(v)
}

fn merge(v: Vec<T>) -> Vec<T> {
    let mut out: Vec<T> = Vec::new();
    for t in v {
        match t {
            T::Lit(s) if s.is_empty() => {}
            T::Lit(s) => {
                if let Some(T::Lit(p)) = out.last_mut() {
                    p.push_str(&s);
                } else {
                    out.push(T::Lit(s));
                }
            }
            t => out.push(t),
        }
    }
    out
}

fn element(e: &et::Element) -> T {
    match e {
        et::Element::Literal(s) => T::Lit(s.value().clone()),
        et::Element::Interpolation(i) => T::Interp(expr(&i.expr), strip(i.strip)),
        et::Element::Directive(d) => match &**d {
            et::Directive::If(d) => T::If {
                cond: expr(&d.if_expr.cond_expr),
                then: template(&d.if_expr.template),
                els: d.else_expr.as_ref().map(|e| template(&e.template)),
                s_if: strip(d.if_expr.strip),
                s_else: d.else_expr.as_ref().map_or((false, false), |e| strip(e.strip)),
                s_end: strip(d.endif_expr.strip),
            },
            et::Directive::For(d) => T::For {
                key: d.for_expr.key_var.as_ref().map(|k| k.as_str().into()),
                val: d.for_expr.value_var.as_str().into(),
                coll: expr(&d.for_expr.collection_expr),
                body: template(&d.for_expr.template),
                s_for: strip(d.for_expr.strip),
                s_end: strip(d.endfor_expr.strip),
            },
        },
    }
}

pub fn body(b: &es::Body) -> Vec<S> {
    b.iter().map(structure).collect()
}

pub fn structure(s: &es::Structure) -> S {
    match s {
        es::Structure::Attribute(a) => S::Attr(a.key.as_str().into(), expr(&a.value)),
        es::Structure::Block(b) => S::Block(block(b)),
    }
}

pub fn block(b: &es::Block) -> Blk {
    Blk {
        ident: b.ident.as_str().into(),
        labels: b
            .labels
            .iter()
            .map(|l| match l {
                es::BlockLabel::Ident(i) => L::Id(i.as_str().into()),
                es::BlockLabel::String(s) => L::Str(s.as_str().into()),
            })
            .collect(),
        body: body(&b.body),
        oneline: false,
    }
}

// --- data model ----------------------------------------------------------------------------------

/// `Err` if a raw template stored in the tree does not parse.
pub type Data<X> = Result<X, String>;

pub fn d_expr(e: &hcl::Expression) -> Data<E> {
    use hcl::Expression as X;
    Ok(match e {
        X::Null => E::Null,
        X::Bool(b) => E::Bool(*b),
        X::Number(n) => E::Num(number(n)),
        X::String(s) => E::Str(s.clone()),
        X::Array(a) => E::Arr(d_list(a)?),
        X::Object(o) => E::Obj(o.iter().map(|(k, v)| Ok((d_key(k)?, d_expr(v)?))).collect::<Data<_>>()?),
        X::TemplateExpr(t) => match &**t {
            hcl::expr::TemplateExpr::QuotedString(s) => E::Tpl(d_template(&s.parse::<hcl::Template>().map_err(|e| format!("raw template {s:?}: {e}"))?)?),
            hcl::expr::TemplateExpr::Heredoc(h) => {
                let flush = h.strip == hcl::expr::HeredocStripMode::Indent;
                let tpl = d_template(&h.template.parse::<hcl::Template>().map_err(|e| format!("raw heredoc {:?}: {e}", h.template))?)?;
                let tpl = if flush { dedented(&tpl) } else { tpl };
                E::Heredoc(Box::new(Hd { delim: h.delimiter.as_str().into(), flush, tpl }))
            }
        },
        X::Parenthesis(p) => E::Paren(Box::new(d_expr(p)?)),
        X::Variable(v) => E::Var(v.as_str().into()),
        X::Conditional(c) => E::Cond(Box::new((d_expr(&c.cond_expr)?, d_expr(&c.true_expr)?, d_expr(&c.false_expr)?))),
        X::FuncCall(f) => {
            let mut name: Vec<String> = f.name.namespace.iter().map(|i| i.as_str().to_string()).collect();
            name.push(f.name.name.as_str().into());
            E::Call(name, d_list(&f.args)?, f.expand_final)
        }
        X::Traversal(t) => E::Trav(
            Box::new(d_expr(&t.expr)?),
            t.operators
                .iter()
                .map(|o| {
                    Ok(match o {
                        hcl::expr::TraversalOperator::AttrSplat => Op::AttrSplat,
                        hcl::expr::TraversalOperator::FullSplat => Op::FullSplat,
                        hcl::expr::TraversalOperator::GetAttr(i) => Op::Attr(i.as_str().into()),
                        hcl::expr::TraversalOperator::Index(e) => Op::Index(d_expr(e)?),
                        hcl::expr::TraversalOperator::LegacyIndex(n) => Op::Legacy(*n),
                    })
                })
                .collect::<Data<_>>()?,
        ),
        X::Operation(o) => match &**o {
            hcl::expr::Operation::Unary(u) => E::Un(unop(u.operator), Box::new(d_expr(&u.expr)?)),
            hcl::expr::Operation::Binary(b) => E::Bin(Box::new(d_expr(&b.lhs_expr)?), binop(b.operator), Box::new(d_expr(&b.rhs_expr)?)),
        },
        X::ForExpr(f) => E::For(Box::new(ForE {
            key_var: f.key_var.as_ref().map(|k| k.as_str().into()),
            val_var: f.value_var.as_str().into(),
            coll: d_expr(&f.collection_expr)?,
            key: f.key_expr.as_ref().map(d_expr).transpose()?,
            val: d_expr(&f.value_expr)?,
            grouping: f.grouping,
            cond: f.cond_expr.as_ref().map(d_expr).transpose()?,
        })),
        other => return Err(format!("unexpected expression {other:?}")),
    })
}

fn d_list(v: &[hcl::Expression]) -> Data<Vec<E>> {
    v.iter().map(d_expr).collect()
}

fn d_key(k: &hcl::ObjectKey) -> Data<K> {
    Ok(match k {
        hcl::ObjectKey::Identifier(i) => K::Id(i.as_str().into()),
        hcl::ObjectKey::Expression(e) => K::Ex(d_expr(e)?),
        other => return Err(format!("unexpected object key {other:?}")),
    })
}

pub fn d_template(t: &hcl::Template) -> Data<Vec<T>> {
    Ok(merge(t.elements().iter().map(d_element).collect::<Data<Vec<T>>>()?))
}

fn d_element(e: &hcl::template::Element) -> Data<T> {
    use hcl::template::{Directive, Element};
    Ok(match e {
        Element::Literal(s) => T::Lit(s.clone()),
        Element::Interpolation(i) => T::Interp(d_expr(&i.expr)?, strip(i.strip)),
        Element::Directive(d) => match &**d {
            Directive::If(d) => T::If {
                cond: d_expr(&d.cond_expr)?,
                then: d_template(&d.true_template)?,
                els: d.false_template.as_ref().map(d_template).transpose()?,
                s_if: strip(d.if_strip),
                s_else: strip(d.else_strip),
                s_end: strip(d.endif_strip),
            },
            Directive::For(d) => T::For {
                key: d.key_var.as_ref().map(|k| k.as_str().into()),
                val: d.value_var.as_str().into(),
                coll: d_expr(&d.collection_expr)?,
                body: d_template(&d.template)?,
                s_for: strip(d.for_strip),
                s_end: strip(d.endfor_strip),
            },
        },
    })
}

pub fn d_body(b: &hcl::Body) -> Data<Vec<S>> {
    b.iter()
        .map(|s| {
            Ok(match s {
                hcl::Structure::Attribute(a) => S::Attr(a.key.as_str().into(), d_expr(&a.expr)?),
                hcl::Structure::Block(b) => S::Block(Blk {
                    ident: b.identifier.as_str().into(),
                    labels: b
                        .labels
                        .iter()
                        .map(|l| match l {
                            hcl::BlockLabel::Identifier(i) => L::Id(i.as_str().into()),
                            hcl::BlockLabel::String(s) => L::Str(s.clone()),
                        })
                        .collect(),
                    body: d_body(&b.body)?,
                    oneline: false,
                }),
            })
        })
        .collect()
}
