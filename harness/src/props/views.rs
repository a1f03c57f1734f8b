//! C22: what a node says of itself (equality, kind, accessors, conversions, iterators) is what it
//! was built of.

use crate::build;
use crate::engine::{Case, Prop, Res, Test};
use crate::gen::{self, Gen};
use crate::model::*;
use crate::props::t;
use crate::reify;
use crate::render;
use crate::src::Src;
use crate::{ensure, fail};
use hcl::Identifier;
use hcl_edit::expr as ee;
use hcl_edit::structure as es;
use hcl_edit::template as et;
use hcl_edit::visit_mut::{self, VisitMut};
use hcl_edit::{Decor, Decorate, Decorated, Formatted, Ident, Number, RawString, Span, Spanned};
use std::borrow::Cow;
use std::collections::VecDeque;
use std::str::FromStr;

pub fn add(ps: &mut Vec<Prop>, ts: &mut Vec<Test>) {
    ps.push(Prop {
        id: "C22",
        rule: "non-trivial: two documents that differ in one place (equality), a node with parts or decor (kinds), a list with at least two members (lists), three or more builder calls (builders)",
    });
    ts.push(t("C22", "equality", 20_000, 600_000, equality));
    ts.push(t("C22", "kinds", 20_000, 600_000, kinds));
    ts.push(t("C22", "wrappers", 8_000, 200_000, wrappers));
    ts.push(t("C22", "values", 10_000, 300_000, values));
    ts.push(t("C22", "builders", 10_000, 300_000, builders));
    ts.push(t("C22", "iterators", 8_000, 200_000, iterators));
}

// --- point changes -------------------------------------------------------------------------------

/// Changes one place of a tree. Places are counted; the one at `at` is changed.
struct Change<'a> {
    s: &'a mut Src,
    at: Option<usize>,
    n: usize,
    what: &'static str,
}

impl Change<'_> {
    fn here(&mut self, what: &'static str) -> bool {
        self.n += 1;
        if Some(self.n - 1) == self.at {
            self.what = what;
            return true;
        }
        false
    }

    fn name(&mut self, n: &mut String) {
        if self.here("name") {
            match self.s.below(3) {
                1 if n.chars().count() > 1 => {
                    n.pop();
                    if KEYWORDS.contains(&n.as_str()) {
                        n.push('_');
                    }
                }
                2 => {
                    let t = if n.chars().any(char::is_lowercase) { n.to_uppercase() } else { format!("{n}-") };
                    // Not every upper case text is a name.
                    *n = if t != *n && Identifier::new(t.as_str()).is_ok() { t } else { format!("{n}0") };
                }
                _ => n.push('x'),
            }
        }
    }

    fn text(&mut self, n: &mut String) {
        if self.here("text") {
            match self.s.below(3) {
                1 if n.chars().count() > 1 => {
                    n.pop();
                }
                2 => n.insert(0, 'x'),
                _ => n.push('x'),
            }
        }
    }

    fn flag(&mut self, f: &mut bool, what: &'static str) {
        if self.here(what) {
            *f = !*f;
        }
    }

    fn strip(&mut self, st: &mut Strip) {
        if self.here("strip") {
            if self.s.bool() {
                st.0 = !st.0;
            } else {
                st.1 = !st.1;
            }
        }
    }

    fn opt<A>(&mut self, o: &mut Option<A>, what: &'static str, new: impl FnOnce(&mut Src) -> A, f: impl FnOnce(&mut Self, &mut A)) {
        if self.here(what) {
            *o = match o {
                Some(_) => None,
                None => Some(new(self.s)),
            };
        } else if let Some(a) = o {
            f(self, a);
        }
    }

    fn list<A: Clone + PartialEq>(&mut self, v: &mut Vec<A>, what: &'static str, min: usize, new: impl FnOnce(&mut Src) -> Option<A>, mut f: impl FnMut(&mut Self, &mut A)) {
        if self.here(what) {
            let i = self.s.below(v.len().max(1));
            let j = self.s.below(v.len().max(1));
            match self.s.below(3) {
                0 if v.len() > min => {
                    v.remove(i);
                }
                // The order of the members of an object is no difference.
                1 if i != j && v[i] != v[j] && what != "object" => v.swap(i, j),
                _ => {
                    if let Some(a) = new(self.s) {
                        v.insert(i, a);
                    }
                }
            }
            return;
        }
        for a in v {
            f(self, a);
        }
    }

    fn num(&mut self, n: &mut N) {
        *n = match n {
            N::U(u) => match self.s.below(3) {
                0 => N::U(*u ^ 1),
                1 => N::U(*u ^ (1 << 63)),
                _ => N::f(*u as f64 + 0.5),
            },
            N::I(i) if self.s.bool() && *i != i64::MIN => N::U(i.unsigned_abs()),
            N::I(i) => N::I(if *i == -1 { -2 } else { *i ^ 1 }),
            N::F(f) => N::f(-*f),
        };
    }

    fn key(&mut self, k: &mut K) {
        match k {
            K::Id(n) => self.name(n),
            K::Ex(e) => self.expr(e),
        }
    }

    fn expr(&mut self, e: &mut E) {
        match e {
            E::Null => {
                if self.here("null") {
                    *e = E::Bool(false);
                }
            }
            E::Bool(b) => self.flag(b, "bool"),
            E::Num(n) => {
                if self.here("number") {
                    self.num(n);
                }
            }
            E::Str(t) => self.text(t),
            E::Arr(v) => self.list(v, "array", 0, |_| Some(E::Null), |c, e| c.expr(e)),
            E::Obj(v) => self.list(
                v,
                "object",
                0,
                |_| Some((K::Id("added_key".into()), E::Null)),
                |c, (k, e)| {
                    c.key(k);
                    c.expr(e);
                },
            ),
            E::Tpl(ts) => self.tpl(ts),
            E::Heredoc(h) => {
                self.name(&mut h.delim);
                self.flag(&mut h.flush, "flush");
                self.tpl(&mut h.tpl);
            }
            E::Var(n) => self.name(n),
            E::Paren(e) => self.expr(e),
            E::Call(n, a, x) => {
                self.list(n, "namespace", 1, |_| Some("added".into()), |c, n| c.name(n));
                self.list(a, "args", 0, |_| Some(E::Null), |c, e| c.expr(e));
                if !a.is_empty() {
                    self.flag(x, "expand");
                }
            }
            E::Cond(c) => {
                if self.here("conditional") {
                    let c = &mut **c;
                    match self.s.below(3) {
                        0 => std::mem::swap(&mut c.0, &mut c.1),
                        1 => std::mem::swap(&mut c.1, &mut c.2),
                        _ => std::mem::swap(&mut c.0, &mut c.2),
                    }
                    return;
                }
                self.expr(&mut c.0);
                self.expr(&mut c.1);
                self.expr(&mut c.2);
            }
            E::Un(o, e) => {
                if self.here("unary operator") {
                    *o = if *o == Un::Neg { Un::Not } else { Un::Neg };
                }
                self.expr(e);
            }
            E::Bin(l, o, r) => {
                if self.here("binary operator") {
                    let i = BINS.iter().position(|b| b == o).unwrap();
                    *o = BINS[(i + 1 + self.s.below(BINS.len() - 1)) % BINS.len()];
                }
                if self.here("operands") {
                    std::mem::swap(l, r);
                    return;
                }
                self.expr(l);
                self.expr(r);
            }
            E::For(f) => {
                let f = &mut **f;
                self.opt(&mut f.key_var, "for key variable", |_| "added".into(), |c, n| c.name(n));
                self.name(&mut f.val_var);
                self.opt(&mut f.key, "for key", |_| E::Null, |c, e| c.expr(e));
                // Only object expressions have it.
                if f.key.is_some() {
                    self.flag(&mut f.grouping, "grouping");
                }
                self.opt(&mut f.cond, "for condition", |_| E::Null, |c, e| c.expr(e));
                self.expr(&mut f.coll);
                self.expr(&mut f.val);
            }
            E::Trav(e, ops) => {
                self.expr(e);
                self.list(
                    ops,
                    "traversal",
                    1,
                    |s| Some(if s.bool() { Op::FullSplat } else { Op::AttrSplat }),
                    |c, o| match o {
                        Op::Attr(n) => c.name(n),
                        Op::Legacy(n) => {
                            if c.here("legacy index") {
                                *n ^= 1;
                            }
                        }
                        Op::Index(e) => c.expr(e),
                        Op::AttrSplat => {
                            if c.here("splat") {
                                *o = Op::FullSplat;
                            }
                        }
                        Op::FullSplat => {
                            if c.here("splat") {
                                *o = Op::AttrSplat;
                            }
                        }
                    },
                );
            }
        }
    }

    fn tpl(&mut self, ts: &mut Vec<T>) {
        self.list(
            ts,
            "template",
            0,
            |_| Some(T::Interp(E::Null, (false, false))),
            |c, t| match t {
                T::Lit(l) => c.text(l),
                T::Interp(e, st) => {
                    c.expr(e);
                    c.strip(st);
                }
                T::If { cond, then, els, s_if, s_else, s_end } => {
                    c.expr(cond);
                    c.tpl(then);
                    c.opt(els, "else", |_| vec![], |c, e| c.tpl(e));
                    c.strip(s_if);
                    if els.is_some() {
                        c.strip(s_else);
                    }
                    c.strip(s_end);
                }
                T::For { key, val, coll, body, s_for, s_end } => {
                    c.opt(key, "for key variable", |_| "added".into(), |c, n| c.name(n));
                    c.name(val);
                    c.expr(coll);
                    c.tpl(body);
                    c.strip(s_for);
                    c.strip(s_end);
                }
            },
        );
    }

    fn body(&mut self, b: &mut Vec<S>) {
        self.list(
            b,
            "body",
            0,
            |s| {
                Some(if s.bool() {
                    S::Attr("added".into(), E::Null)
                } else {
                    S::Block(Blk { ident: "added".into(), labels: vec![], body: vec![], oneline: false })
                })
            },
            |c, x| match x {
                S::Attr(k, e) => {
                    c.name(k);
                    c.expr(e);
                }
                S::Block(b) => {
                    c.name(&mut b.ident);
                    c.list(
                        &mut b.labels,
                        "labels",
                        0,
                        |_| Some(L::Str("added".into())),
                        |c, l| {
                            if c.here("label kind") {
                                let t = l.text().to_string();
                                *l = match l {
                                    L::Id(_) => L::Str(t),
                                    L::Str(_) if Identifier::new(t.as_str()).is_ok() => L::Id(t),
                                    L::Str(_) => L::Id("l".into()),
                                };
                                return;
                            }
                            match l {
                                L::Id(n) => c.name(n),
                                L::Str(n) => c.text(n),
                            }
                        },
                    );
                    c.body(&mut b.body);
                }
            },
        );
    }
}

fn changed<A: Clone>(s: &mut Src, a: &A, f: impl Fn(&mut Change, &mut A)) -> (A, &'static str) {
    let mut b = a.clone();
    let mut c = Change { s, at: None, n: 0, what: "none" };
    f(&mut c, &mut b);
    let n = c.n;
    if n == 0 {
        return (b, "none");
    }
    let at = c.s.below(n);
    let mut c = Change { s, at: Some(at), n: 0, what: "none" };
    f(&mut c, &mut b);
    let what = c.what;
    (b, what)
}

/// Nothing stands for something else: adjacent and empty literals, members given twice.
fn plain(b: &[S]) -> Vec<S> {
    map_body(&norm_body(b), &|e| {
        map_expr(e, &|e| match e {
            E::Obj(v) => {
                let mut out: Vec<(K, E)> = Vec::new();
                for (k, e) in v {
                    match out.iter_mut().find(|(o, _)| *o == k) {
                        Some(o) => o.1 = e,
                        None => out.push((k, e)),
                    }
                }
                E::Obj(out)
            }
            // Only the quoted form says how a heredoc is indented.
            e => e,
        })
    })
}

fn eq_check<A: PartialEq + Clone + std::fmt::Debug>(a: &A, b: &A, same: bool, what: &str, form: &str) -> Res {
    ensure!((a == b) == same, format!("equality:{form}"), "{form}: two nodes {} are {}equal\n{a:?}\n{b:?}", if same { "of the same parts".to_string() } else { format!("that differ ({what})") }, if same { "not " } else { "" });
    ensure!((b == a) == same, format!("symmetry:{form}"), "{form}: equality is not symmetric\n{a:?}\n{b:?}");
    ensure!((a != b) != same, format!("not-equal:{form}"), "{form}: `!=` and `==` agree\n{a:?}\n{b:?}");
    ensure!(*a == a.clone(), format!("clone:{form}"), "{form}: a clone is not equal\n{a:?}");
    Ok(())
}

/// Puts white space and comments around all nodes (or one of so many) there are.
struct Everywhere {
    n: usize,
    of: usize,
}

impl Everywhere {
    fn decorate(&mut self, x: &mut impl Decorate) {
        self.n += 1;
        if self.n % (self.of + 1) == 0 {
            x.decor_mut().set_prefix(format!(" /* {} */ ", self.n));
            x.decor_mut().set_suffix("\n");
        }
    }
}

macro_rules! everywhere {
    ($($name:ident $t:ty),* $(,)?) => {
        $(fn $name(&mut self, node: &mut $t) {
            self.decorate(node);
            visit_mut::$name(self, node);
        })*
    };
}

macro_rules! everywhere_leaf {
    ($($name:ident $t:ty),* $(,)?) => {
        $(fn $name(&mut self, node: &mut $t) {
            self.decorate(node);
        })*
    };
}

impl VisitMut for Everywhere {
    everywhere! {
        visit_body_mut es::Body, visit_block_mut es::Block, visit_block_label_mut es::BlockLabel, visit_expr_mut ee::Expression,
        visit_array_mut ee::Array, visit_object_mut ee::Object, visit_parenthesis_mut ee::Parenthesis, visit_conditional_mut ee::Conditional,
        visit_unary_op_mut ee::UnaryOp, visit_binary_op_mut ee::BinaryOp, visit_traversal_operator_mut ee::TraversalOperator,
        visit_func_call_mut ee::FuncCall, visit_func_args_mut ee::FuncArgs, visit_for_expr_mut ee::ForExpr, visit_for_intro_mut ee::ForIntro,
        visit_for_cond_mut ee::ForCond, visit_string_template_mut et::StringTemplate, visit_heredoc_template_mut et::HeredocTemplate,
    }
    everywhere_leaf! {
        visit_ident_mut Decorated<Ident>, visit_null_mut Decorated<ee::Null>, visit_bool_mut Decorated<bool>, visit_u64_mut Decorated<u64>,
        visit_number_mut Formatted<Number>, visit_string_mut Decorated<String>, visit_splat_mut Decorated<ee::Splat>,
        visit_binary_operator_mut Decorated<ee::BinaryOperator>,
    }
    fn visit_structure_mut(&mut self, mut node: es::StructureMut) {
        self.decorate(&mut node);
        visit_mut::visit_structure_mut(self, node);
    }
    fn visit_attr_mut(&mut self, mut node: es::AttributeMut) {
        let mut d = node.key.decor().clone();
        d.set_suffix("\t");
        *node.key_decor_mut() = d;
        visit_mut::visit_attr_mut(self, node);
    }
    fn visit_object_key_mut(&mut self, mut node: ee::ObjectKeyMut) {
        self.decorate(&mut node);
    }
    fn visit_traversal_mut(&mut self, node: &mut ee::Traversal) {
        self.decorate(node);
        for o in &mut node.operators {
            self.decorate(o);
        }
        visit_mut::visit_traversal_mut(self, node);
    }
}

fn equality(s: &mut Src, c: &mut Case) -> Res {
    let m = Gen::new(s).body(2);
    let same = s.chance(1, 6);
    let (o, what) = if same { (m.clone(), "none") } else { changed(s, &m, |c, b| c.body(b)) };
    c.label(what);
    c.input = format!("{m:?}\nchanged ({what}): {o:?}");
    // `plain` knows of all the cases in which different parts give the same node.
    let same = plain(&m) == plain(&o);
    let same_body = same;
    let (a, b) = (build::body(&m), build::body(&o));
    // Whitespace of flush heredocs may go away.
    if m != o && (same || reify::body(&a) == reify::body(&b)) {
        c.discard = true;
        return Ok(());
    }
    c.nontrivial = !same;
    eq_check(&a, &b, same, what, "edit")?;
    let (x, y) = (build::d_body(&m), build::d_body(&o));
    eq_check(&x, &y, same, what, "data")?;

    // Names of one member and the member itself.
    if let (Some(p), Some(q)) = (a.get(0), b.get(0)) {
        let same = plain(&m[..1]) == plain(&o[..1]);
        eq_check(p, q, same, what, "edit structure")?;
        let same_v = match (&m[0], &o[0]) {
            (S::Attr(_, p), S::Attr(_, q)) => Some(plain(&[S::Attr("a".into(), p.clone())]) == plain(&[S::Attr("a".into(), q.clone())])),
            _ => None,
        };
        if let (Some(same), Some(p), Some(q)) = (same_v, p.as_attribute(), q.as_attribute()) {
            eq_check(&p.value, &q.value, same, what, "edit expression")?;
        }
    }

    // Decor, representation and position say nothing about what a document holds.
    let mut d = a.clone();
    d.decor_mut().set_prefix("# prefix\n");
    if let Some(x) = d.iter_mut().next() {
        let mut x = x;
        x.decor_mut().set_suffix("   ");
        if let Some(mut x) = x.as_attribute_mut() {
            x.key_decor_mut().set_suffix("\t");
            x.value_mut().decor_mut().set_prefix(" /* here */ ");
            x.value_mut().decor_mut().set_suffix(" # there\n");
        }
    }
    ensure!(d == a, "decor", "a decorated document is not equal to the document\n{d:?}\n{a:?}");
    let mut d = a.clone();
    let n = s.range(0, 3);
    let mut v = Everywhere { n: 0, of: n };
    v.decorate(&mut d);
    v.visit_body_mut(&mut d);
    ensure!(d == a && a == d, "decor", "a document decorated all over is not equal to the document\n{d:?}\n{a:?}");
    ensure!((d == b) == same_body && (b == d) == same_body, "decor", "a decorated document is {}equal to another\n{d:?}\n{b:?}", if same_body { "not " } else { "" });
    Ok(())
}

// --- kinds ---------------------------------------------------------------------------------------

fn kind_no(e: &E) -> usize {
    match e {
        E::Null => 0,
        E::Bool(_) => 1,
        E::Num(_) => 2,
        E::Str(_) => 3,
        E::Arr(_) => 4,
        E::Obj(_) => 5,
        E::Tpl(_) => 6,
        E::Heredoc(_) => 7,
        E::Paren(_) => 8,
        E::Var(_) => 9,
        E::Cond(_) => 10,
        E::Call(..) => 11,
        E::Trav(..) => 12,
        E::Un(..) => 13,
        E::Bin(..) => 14,
        E::For(_) => 15,
    }
}

fn one_kind(is: &[bool], k: usize, what: &str) -> Res {
    for (i, v) in is.iter().enumerate() {
        ensure!(*v == (i == k), format!("{what}:{i}"), "{what} number {i} is {v} for a node of kind {k}");
    }
    Ok(())
}

/// `back` is the node made of what the accessor gave.
fn back(e: &ee::Expression, back: &ee::Expression, m: &E, what: &str) -> Res {
    ensure!(e == back, format!("accessor:{what}"), "{what} gives other contents: {back:?} for {m:?}");
    Ok(())
}

fn see_expr(e: &ee::Expression, m: &E) -> Res {
    let k = kind_no(m);
    one_kind(
        &[
            e.is_null(),
            e.is_bool(),
            e.is_number(),
            e.is_str(),
            e.is_array(),
            e.is_object(),
            e.is_string_template(),
            e.is_heredoc_template(),
            e.is_parenthesis(),
            e.is_variable(),
            e.is_conditional(),
            e.is_func_call(),
            e.is_traversal(),
            e.is_unary_op(),
            e.is_binary_op(),
            e.is_for_expr(),
        ],
        k,
        "is",
    )?;
    one_kind(
        &[
            e.is_null(),
            e.as_bool().is_some(),
            e.as_number().is_some(),
            e.as_str().is_some(),
            e.as_array().is_some(),
            e.as_object().is_some(),
            e.as_string_template().is_some(),
            e.as_heredoc_template().is_some(),
            e.as_parenthesis().is_some(),
            e.as_variable().is_some(),
            e.as_conditional().is_some(),
            e.as_func_call().is_some(),
            e.as_traversal().is_some(),
            e.as_unary_op().is_some(),
            e.as_binary_op().is_some(),
            e.as_for_expr().is_some(),
        ],
        k,
        "as",
    )?;
    ensure!(e.is_template() == matches!(k, 6 | 7) && e.as_template().is_some() == e.is_template(), "is:template", "{} for {m:?}", e.is_template());
    let mut mu = e.clone();
    ensure!(mu.as_array_mut().is_some() == (k == 4), "as:array-mut", "for {m:?}");
    ensure!(mu.as_object_mut().is_some() == (k == 5), "as:object-mut", "for {m:?}");
    match m {
        E::Null => back(e, &ee::Expression::null(), m, "null")?,
        E::Bool(b) => {
            back(e, &e.as_bool().unwrap().into(), m, "as_bool")?;
            ensure!(e.as_bool() == Some(*b), "accessor:bool", "{m:?}");
            back(e, &Decorated::new(*b).into(), m, "From<Decorated<bool>>")?;
        }
        E::Num(n) => {
            ensure!(reify::number(e.as_number().unwrap()) == *n, "accessor:number", "{:?} for {m:?}", e.as_number());
            back(e, &(*e.as_number().unwrap()).into(), m, "as_number")?;
            back(e, &Formatted::new(build::num(n)).into(), m, "From<Formatted<Number>>")?;
        }
        E::Str(t) => {
            ensure!(e.as_str() == Some(t), "accessor:str", "{:?} for {m:?}", e.as_str());
            back(e, &t.as_str().into(), m, "From<&str>")?;
            back(e, &t.clone().into(), m, "From<String>")?;
            back(e, &Cow::Borrowed(t.as_str()).into(), m, "From<Cow>")?;
            back(e, &Cow::<str>::Owned(t.clone()).into(), m, "From<Cow>")?;
            back(e, &Decorated::new(t.clone()).into(), m, "From<Decorated<String>>")?;
        }
        E::Arr(v) => {
            let a = e.as_array().unwrap();
            back(e, &a.clone().into(), m, "as_array")?;
            let same = a.iter().map(reify::expr).eq(v.iter().map(|e| reify::expr(&build::expr(e)))) || a.iter().map(|e| norm(&reify::expr(e))).eq(v.iter().map(norm));
            ensure!(same, "accessor:array", "{a:?} for {m:?}");
            if a.trailing_comma() || !a.trailing().is_empty() {
                return Ok(());
            }
            let items: Vec<ee::Expression> = a.iter().cloned().collect();
            back(e, &ee::Expression::from(items.clone()), m, "From<Vec>")?;
            back(e, &ee::Expression::from(&items[..]), m, "From<&[T]>")?;
            back(e, &items.into_iter().collect(), m, "FromIterator")?;
            let mut x = e.clone();
            x.as_array_mut().unwrap().clear();
            ensure!(x == ee::Array::new().into(), "accessor:array-mut", "clear gives {x:?}");
        }
        E::Obj(v) => {
            let o = e.as_object().unwrap();
            back(e, &o.clone().into(), m, "as_object")?;
            ensure!(o.len() == v.len(), "accessor:object", "{o:?} for {m:?}");
            let mut x = e.clone();
            x.as_object_mut().unwrap().clear();
            ensure!(x.as_object().is_some_and(ee::Object::is_empty), "accessor:object-mut", "clear gives {x:?}");
            for ((k, _), (mk, _)) in o.iter().zip(v) {
                let id = matches!(mk, K::Id(_));
                let is = (k.is_ident(), k.is_expr(), k.as_ident().is_some(), k.as_expr().is_some());
                ensure!(is == (id, !id, id, !id), "object-key", "{is:?} for {mk:?}");
                match mk {
                    K::Id(n) => ensure!(k.as_ident().unwrap().as_str() == n, "object-key", "{k:?} for {mk:?}"),
                    K::Ex(e) => ensure!(norm(&reify::expr(k.as_expr().unwrap())) == norm(e), "object-key", "{k:?} for {mk:?}"),
                }
            }
            let plain = v.iter().all(|(_, e)| !matches!(e, E::Heredoc(_))) && o.trailing().is_empty();
            if plain {
                let pairs: Vec<(ee::ObjectKey, ee::Expression)> = o.iter().map(|(k, v)| (k.clone(), v.expr().clone())).collect();
                let y: ee::Expression = pairs.into_iter().collect();
                ensure!(norm(&reify::expr(&y)) == norm(m), "accessor:object", "from pairs: {y:?} for {m:?}");
            }
        }
        E::Tpl(ts) => {
            let x = e.as_string_template().unwrap();
            back(e, &x.clone().into(), m, "as_string_template")?;
            see_tpl(e.as_template().unwrap(), ts)?;
            let tpl: et::Template = x.clone().into();
            ensure!(tpl == *e.as_template().unwrap(), "accessor:template", "{tpl:?} for {m:?}");
            back(e, &et::StringTemplate::from(tpl).into(), m, "From<Template>")?;
            back(e, &et::StringTemplate::from(x.iter().cloned().collect::<Vec<_>>()).into(), m, "From<Vec<Element>>")?;
        }
        E::Heredoc(h) => {
            let x = e.as_heredoc_template().unwrap();
            back(e, &x.clone().into(), m, "as_heredoc_template")?;
            ensure!(x.delimiter.as_str() == h.delim, "accessor:heredoc", "{x:?} for {m:?}");
            ensure!(x.indent().is_some() == h.flush, "accessor:heredoc", "{x:?} for {m:?}");
            ensure!(*e.as_template().unwrap() == x.template, "accessor:heredoc", "{x:?} for {m:?}");
        }
        E::Paren(i) => {
            let x = e.as_parenthesis().unwrap();
            back(e, &x.clone().into(), m, "as_parenthesis")?;
            ensure!(norm(&reify::expr(x.inner())) == norm(i), "accessor:parenthesis", "{x:?} for {m:?}");
            let mut y = x.clone();
            *y.inner_mut() = ee::Expression::null();
            ensure!(y.into_inner().is_null(), "accessor:parenthesis", "{m:?}");
            back(e, &ee::Parenthesis::new(x.clone().into_inner()).into(), m, "into_inner")?;
            see_expr(x.inner(), &reify::expr(x.inner()))?;
        }
        E::Var(n) => {
            let x = e.as_variable().unwrap();
            ensure!(x.as_str() == n, "accessor:variable", "{x:?} for {m:?}");
            back(e, &x.clone().into(), m, "as_variable")?;
            back(e, &Decorated::new(x.clone()).into(), m, "From<Decorated<Ident>>")?;
        }
        E::Cond(x) => {
            let y = e.as_conditional().unwrap();
            let parts = (norm(&reify::expr(&y.cond_expr)), norm(&reify::expr(&y.true_expr)), norm(&reify::expr(&y.false_expr)));
            ensure!(parts == (norm(&x.0), norm(&x.1), norm(&x.2)), "accessor:conditional", "{y:?} for {m:?}");
            back(e, &y.clone().into(), m, "as_conditional")?;
        }
        E::Call(n, a, x) => {
            let y = e.as_func_call().unwrap();
            let mut name: Vec<&str> = y.name.namespace.iter().map(|n| n.as_str()).collect();
            ensure!(y.name.is_namespaced() != name.is_empty(), "accessor:func-name", "{:?} for {m:?}", y.name);
            name.push(y.name.name.as_str());
            ensure!(name == *n && y.args.len() == a.len() && y.args.expand_final() == *x, "accessor:func-call", "{y:?} for {m:?}");
            back(e, &y.clone().into(), m, "as_func_call")?;
        }
        E::Trav(b, ops) => {
            let y = e.as_traversal().unwrap();
            ensure!(norm(&reify::expr(&y.expr)) == norm(b) && y.operators.len() == ops.len(), "accessor:traversal", "{y:?} for {m:?}");
            back(e, &y.clone().into(), m, "as_traversal")?;
        }
        E::Un(..) => back(e, &e.as_unary_op().unwrap().clone().into(), m, "as_unary_op")?,
        E::Bin(..) => back(e, &e.as_binary_op().unwrap().clone().into(), m, "as_binary_op")?,
        E::For(x) => {
            let y = e.as_for_expr().unwrap();
            back(e, &y.clone().into(), m, "as_for_expr")?;
            ensure!(y.grouping == x.grouping && y.key_expr.is_some() == x.key.is_some() && y.cond.is_some() == x.cond.is_some(), "accessor:for", "{y:?} for {m:?}");
        }
    }
    Ok(())
}

fn see_tpl(r: &et::Template, m: &[T]) -> Res {
    let single = r.as_single_element();
    ensure!(single.is_some() == (r.len() == 1), "single-element", "{single:?} of {r:?}");
    let m = &merge(m)[..];
    if r.len() != m.len() {
        // Adjacent literals.
        return Ok(());
    }
    for (e, m) in r.iter().zip(m) {
        let k = match m {
            T::Lit(_) => 0,
            T::Interp(..) => 1,
            _ => 2,
        };
        one_kind(&[e.is_literal(), e.is_interpolation(), e.is_directive()], k, "element")?;
        one_kind(&[e.as_literal().is_some(), e.as_interpolation().is_some(), e.as_directive().is_some()], k, "element accessor")?;
        match m {
            T::Lit(l) => {
                let x = e.as_literal().unwrap();
                ensure!(x.as_str() == l, "element:literal", "{x:?} for {m:?}");
                ensure!(et::Element::from(x.clone()) == *e && et::Element::from(l.as_str()) == *e && et::Element::from(l.clone()) == *e, "element:literal", "{m:?}");
            }
            T::Interp(x, st) => {
                let i = e.as_interpolation().unwrap();
                ensure!(reify::strip(i.strip) == *st && norm(&reify::expr(&i.expr)) == norm(x), "element:interpolation", "{i:?} for {m:?}");
                ensure!(et::Element::from(i.clone()) == *e, "element:interpolation", "{m:?}");
            }
            T::If { .. } | T::For { .. } => {
                let d = e.as_directive().unwrap();
                let again: et::Directive = match (d, m) {
                    (et::Directive::If(i), T::If { .. }) => i.clone().into(),
                    (et::Directive::For(f), T::For { .. }) => f.clone().into(),
                    _ => fail!("directive-kind", "{d:?} for {m:?}"),
                };
                ensure!(again == *d && et::Element::from(again) == *e, "element:directive", "{m:?}");
                match (d, m) {
                    (et::Directive::If(d), T::If { then, els, .. }) => {
                        see_tpl(&d.if_expr.template, then)?;
                        if let (Some(d), Some(m)) = (&d.else_expr, els) {
                            see_tpl(&d.template, m)?;
                        }
                    }
                    (et::Directive::For(d), T::For { body, .. }) => see_tpl(&d.for_expr.template, body)?,
                    _ => {}
                }
            }
        }
    }
    Ok(())
}

fn kinds(s: &mut Src, c: &mut Case) -> Res {
    let m = Gen::new(s).value();
    c.nontrivial = !matches!(m, E::Null | E::Bool(_) | E::Num(_) | E::Str(_) | E::Var(_));
    c.label(kind(&m));
    if s.bool() || matches!(m, E::Heredoc(_)) {
        c.input = format!("{m:?}");
        let e = build::expr(&m);
        let r = Gen::new(s).ident();
        // What was built, decorated or not.
        let m = reify::expr(&e);
        see_expr(&e, &m)?;
        let d = e.clone().decorated(("/* a */", format!(" /* {r} */")));
        ensure!(d == e, "decor", "{m:?}");
        return see_expr(&d, &m);
    }
    let text = render::render_expr(s, &m).text;
    c.input = text.clone();
    let Ok(e) = ee::Expression::from_str(&text) else { return Ok(()) };
    let again = ee::Expression::from_str(&text);
    ensure!(again.as_ref().is_ok_and(|a| *a == e), "same-text", "the same text gives unequal expressions");
    see_expr(&e, &reify::expr(&e))
}

// --- wrappers ------------------------------------------------------------------------------------

fn decor_text(s: &mut Src) -> String {
    (*s.pick(&["", " ", "\n", "\t# c\n", "/**/", " /* é */ ", "// x\n  "])).to_string()
}

fn wrappers(s: &mut Src, c: &mut Case) -> Res {
    let (p, q) = (decor_text(s), decor_text(s));
    let text = gen::text(s, 8);
    let n = Gen::new(s).num();
    c.input = format!("{p:?} {q:?} {text:?} {n:?}");
    c.nontrivial = !p.is_empty() && !q.is_empty();

    // Decor and raw text.
    for raw in [RawString::from(p.as_str()), RawString::from(p.clone()), RawString::from(Cow::Borrowed(p.as_str()))] {
        ensure!(*raw == *p, "raw", "{:?} for {p:?}", &*raw);
        ensure!(raw == RawString::from(p.as_str()) && (p == q) == (raw == RawString::from(q.as_str())), "raw-equality", "{p:?} {q:?}");
        let b: Cow<str> = (&raw).into();
        ensure!(b == p.as_str(), "raw-cow", "{b:?} for {p:?}");
        let o: Cow<'static, str> = raw.into();
        ensure!(o == p.as_str(), "raw-cow", "{o:?} for {p:?}");
    }
    ensure!(RawString::default().is_empty(), "raw-default", "");
    let mut d = Decor::new(p.as_str(), q.as_str());
    let get = |d: &Decor| (d.prefix().map(|r| r.to_string()), d.suffix().map(|r| r.to_string()));
    ensure!(get(&d) == (Some(p.clone()), Some(q.clone())), "decor", "{d:?}");
    ensure!(d == Decor::from((p.as_str(), q.clone())), "decor-from", "{d:?}");
    d.set_prefix(q.as_str());
    ensure!(get(&d) == (Some(q.clone()), Some(q.clone())), "decor-prefix", "{d:?}");
    d.set_suffix(p.as_str());
    ensure!(get(&d) == (Some(q.clone()), Some(p.clone())), "decor-suffix", "{d:?}");
    d.clear();
    ensure!(get(&d) == (None, None) && d == Decor::default(), "decor-clear", "{d:?}");

    // Wrapped values.
    let mut w = Decorated::new(text.clone());
    ensure!(*w.value() == text && *w == text && w.as_ref() == &text && w.clone().into_value() == text && w.clone().value_into::<Box<str>>() == text.clone().into_boxed_str(), "decorated", "{w:?}");
    ensure!(w == Decorated::from(text.clone()) && w.span().is_none(), "decorated-from", "{w:?}");
    w.decorate((p.as_str(), q.as_str()));
    ensure!(get(w.decor()) == (Some(p.clone()), Some(q.clone())) && *w.value() == text, "decorated-decor", "{w:?}");
    ensure!(w == Decorated::new(text.clone()), "decorated-equality", "{w:?}");
    w.value_mut().push('x');
    ensure!(*w.value() == format!("{text}x") && w != Decorated::new(text.clone()), "decorated-mut", "{w:?}");
    w.push('y');
    w.as_mut().push('z');
    ensure!(*w == format!("{text}xyz") && w.to_string() == format!("{text}xyz"), "decorated-mut", "{w:?}");
    ensure!(get(w.decor()) == (Some(p.clone()), Some(q.clone())), "decorated-decor", "the decor is lost: {w:?}");
    let b: Box<Decorated<String>> = Box::new(w.clone()).decorated((q.as_str(), p.as_str()));
    ensure!(get(b.decor()) == (Some(q.clone()), Some(p.clone())) && *b == w && b.span().is_none(), "boxed", "{b:?}");

    let mut w = Spanned::new(text.clone());
    ensure!(*w.value() == text && *w == text && w.as_ref() == &text && w.clone().into_value() == text && w.clone().value_into::<Box<str>>() == text.clone().into_boxed_str(), "spanned", "{w:?}");
    ensure!(w == Spanned::from(text.clone()) && w.span().is_none(), "spanned-from", "{w:?}");
    w.value_mut().push('x');
    w.push('y');
    w.as_mut().push('z');
    ensure!(*w == format!("{text}xyz") && w.to_string() == format!("{text}xyz") && w != Spanned::new(text.clone()), "spanned-mut", "{w:?}");

    // Numbers keep the way they are written until the value may have changed.
    let num = build::num(&n);
    let mut w = Formatted::new(num);
    ensure!(*w.value() == num && *w == num && w.as_ref() == &num && w.clone().into_value() == num && w.clone().value_into::<hcl::Value>() == hcl::Value::from(num), "formatted", "{w:?}");
    ensure!(w == Formatted::from(num) && w.as_repr().is_none() && w.span().is_none(), "formatted-from", "{w:?}");
    w.format();
    ensure!(w.as_repr().is_some_and(|r| **r == num.to_string()) && w == Formatted::new(num), "format", "{w:?}");
    w.decorate((p.as_str(), q.as_str()));
    ensure!(get(w.decor()) == (Some(p.clone()), Some(q.clone())) && w == Formatted::new(num) && w.to_string() == num.to_string(), "formatted-decor", "{w:?}");
    let other = build::num(&Gen::new(s).num());
    let written = |w: &Formatted<Number>| ee::Expression::from(w.clone()).to_string();
    let expect = format!("{p}{other}{q}");
    let mut x = w.clone();
    *x.value_mut() = other;
    ensure!(*x.value() == other && written(&x) == expect, "formatted-mut", "value_mut: written as {:?} after setting {other}", written(&x));
    let mut x = w.clone();
    *x = other;
    ensure!(*x.value() == other && written(&x) == expect, "formatted-mut", "deref_mut: written as {:?} after setting {other}", written(&x));
    let mut x = w.clone();
    *x.as_mut() = other;
    ensure!(*x.value() == other && written(&x) == expect, "formatted-mut", "as_mut: written as {:?} after setting {other}", written(&x));

    // A number that was read.
    let src = format!("{p}{num}{q}");
    if !n.is_neg() {
        if let Ok(ee::Expression::Number(mut x)) = src.parse::<ee::Expression>() {
            ensure!(*x.value() == num, "read", "{x:?} for {src:?}");
            *x.value_mut() = other;
            ensure!(written(&x) == expect, "read-mut", "written as {:?} after setting {other} in {src:?}", written(&x));
        }
    }

    // Names.
    let name = Gen::new(s).ident();
    let id = Ident::new(&name);
    let id2: Ident = hcl::Identifier::from(id.clone()).into();
    ensure!(id == id2 && id.as_str() == name && *id == *name && id.to_string() == name && id.clone().into_string() == name, "ident", "{id:?}");
    ensure!(Ident::try_new(&name).is_ok_and(|i| i == id), "ident-from", "{id:?}");
    let hid = Identifier::new(name.as_str()).map_err(|e| crate::engine::Fail::new("identifier", e.to_string()))?;
    ensure!(hid.as_str() == name && *hid == *name && hid.to_string() == name && hid.clone().into_inner() == name && hid == Identifier::from(name.as_str()), "identifier", "{hid:?}");
    let v = hcl::expr::Variable::from(hid.clone());
    ensure!(v.as_str() == name && v.clone().into_inner() == hid && Identifier::from(v.clone()) == hid && v == hcl::expr::Variable::new(name.as_str()).unwrap(), "variable", "{v:?}");

    // Labels.
    for l in [L::Id(name.clone()), L::Str(text.clone())] {
        let e = build::label(&l);
        let id = matches!(l, L::Id(_));
        ensure!(e.is_ident() == id && e.is_string() != id && e.as_str() == l.text() && e.as_ref() == l.text() && *e == *l.text(), "label", "{e:?} for {l:?}");
        let h: hcl::BlockLabel = e.clone().into();
        ensure!(matches!(&h, hcl::BlockLabel::Identifier(_)) == id && h.as_str() == l.text() && h.clone().into_inner() == l.text(), "label", "{h:?} for {l:?}");
        let e2: es::BlockLabel = h.into();
        ensure!(e2 == e, "label", "{e2:?} for {e:?}");
    }
    let strs = [es::BlockLabel::from(text.as_str()), es::BlockLabel::from(text.clone()), es::BlockLabel::from(Decorated::new(text.clone()))];
    ensure!(strs.iter().all(|l| *l == strs[0] && l.is_string() && l.as_str() == text), "label-from", "{strs:?}");
    let ids = [es::BlockLabel::from(Ident::new(&name)), es::BlockLabel::from(Decorated::new(Ident::new(&name)))];
    ensure!(ids.iter().all(|l| *l == ids[0] && l.is_ident() && l.as_str() == name), "label-from", "{ids:?}");
    let hs = [hcl::BlockLabel::from(text.as_str()), hcl::BlockLabel::from(text.clone()), hcl::BlockLabel::from(&text), hcl::BlockLabel::from(Cow::Borrowed(text.as_str()))];
    ensure!(hs.iter().all(|l| *l == hs[0] && matches!(l, hcl::BlockLabel::String(_)) && l.as_str() == text), "label-from", "{hs:?}");
    Ok(())
}

// --- values --------------------------------------------------------------------------------------

fn value(s: &mut Src, depth: usize) -> E {
    match s.weighted(&[2, 2, 4, 4, if depth < 3 { 3 } else { 0 }, if depth < 3 { 3 } else { 0 }]) {
        0 => E::Null,
        1 => E::Bool(s.bool()),
        2 => E::Num(Gen::new(s).num()),
        3 => E::Str(gen::text(s, 8)),
        4 => {
            let mut v = Vec::new();
            while s.more(v.len(), 2, 5) {
                v.push(value(s, depth + 1));
            }
            E::Arr(v)
        }
        _ => {
            let mut v: Vec<(K, E)> = Vec::new();
            while s.more(v.len(), 2, 5) {
                let k = K::Ex(E::Str(gen::text(s, 4)));
                if v.iter().all(|(o, _)| *o != k) {
                    v.push((k, value(s, depth + 1)));
                }
            }
            E::Obj(v)
        }
    }
}

fn key_text(k: &K) -> &str {
    match k {
        K::Id(s) | K::Ex(E::Str(s)) => s,
        K::Ex(_) => unreachable!(),
    }
}

fn to_value(m: &E) -> hcl::Value {
    match m {
        E::Null => hcl::Value::Null,
        E::Bool(b) => hcl::Value::Bool(*b),
        E::Num(n) => hcl::Value::Number(build::num(n)),
        E::Str(s) => hcl::Value::String(s.clone()),
        E::Arr(v) => hcl::Value::Array(v.iter().map(to_value).collect()),
        E::Obj(v) => hcl::Value::Object(v.iter().map(|(k, v)| (key_text(k).to_string(), to_value(v))).collect()),
        _ => unreachable!(),
    }
}

fn see_value(v: &hcl::Value, m: &E) -> Res {
    use hcl::Value as V;
    let k = match m {
        E::Null => 0,
        E::Bool(_) => 1,
        E::Num(_) => 2,
        E::Str(_) => 3,
        E::Arr(_) => 4,
        _ => 5,
    };
    one_kind(&[v.is_null(), v.is_boolean(), v.is_number(), v.is_string(), v.is_array(), v.is_object()], k, "value-is")?;
    one_kind(&[v.as_null().is_some(), v.as_bool().is_some(), v.as_number().is_some(), v.as_str().is_some(), v.as_array().is_some(), v.as_object().is_some()], k, "value-as")?;
    let mut mu = v.clone();
    ensure!((mu.as_array_mut().is_some(), mu.as_object_mut().is_some()) == (k == 4, k == 5), "value-mut", "{m:?}");
    ensure!(mu == *v && mu.take() == *v && mu == V::Null, "value-take", "{mu:?} is left of {m:?}");
    let (u, i, f) = match m {
        E::Num(n) => (n.int().and_then(|n| u64::try_from(n).ok()), n.int().and_then(|n| i64::try_from(n).ok()), Some(n.to_f64())),
        _ => (None, None, None),
    };
    ensure!((v.as_u64(), v.as_i64(), v.as_f64()) == (u, i, f), "value-number", "{:?} {:?} {:?} for {m:?}", v.as_u64(), v.as_i64(), v.as_f64());
    let is_f = matches!(m, E::Num(N::F(_)));
    ensure!((v.is_u64(), v.is_i64(), v.is_f64()) == (u.is_some(), i.is_some(), is_f), "value-number", "{} {} {} for {m:?}", v.is_u64(), v.is_i64(), v.is_f64());
    match m {
        E::Null => ensure!(V::from(()) == *v && V::default() == *v, "value-from", "{m:?}"),
        E::Bool(b) => ensure!(v.as_bool() == Some(*b) && V::from(*b) == *v, "value-from", "{m:?}"),
        E::Num(n) => {
            ensure!(v.as_number() == Some(&build::num(n)) && V::from(build::num(n)) == *v, "value-from", "{m:?}");
            if let Some(u) = u {
                ensure!(V::from(u) == *v && V::from(u as usize) == *v, "value-from", "{m:?}");
            }
            if let Some(i) = i {
                ensure!(V::from(i) == *v && V::from(i as isize) == *v, "value-from", "{m:?}");
            }
            let f = n.to_f64();
            ensure!(V::from(f) == V::Number(Number::from_f64(f).unwrap()), "value-from", "{m:?}");
        }
        E::Str(t) => {
            ensure!(v.as_str() == Some(t), "value-from", "{v:?} for {m:?}");
            ensure!(V::from(t.as_str()) == *v && V::from(t.clone()) == *v && V::from(Cow::Borrowed(t.as_str())) == *v && V::from(Cow::<str>::Owned(t.clone())) == *v, "value-from", "{m:?}");
        }
        E::Arr(ms) => {
            let a = v.as_array().unwrap();
            ensure!(a.len() == ms.len(), "value-array", "{v:?} for {m:?}");
            ensure!(V::from(a.clone()) == *v && V::from(&a[..]) == *v && a.iter().cloned().collect::<V>() == *v, "value-from", "{m:?}");
            for (v, m) in a.iter().zip(ms) {
                see_value(v, m)?;
            }
            let mut x = v.clone();
            x.as_array_mut().unwrap().push(V::Null);
            ensure!(x.as_array().unwrap().len() == ms.len() + 1 && x != *v, "value-array", "{x:?}");
        }
        E::Obj(ms) => {
            let o = v.as_object().unwrap();
            ensure!(o.keys().map(String::as_str).eq(ms.iter().map(|(k, _)| key_text(k))), "value-object", "{v:?} for {m:?}");
            ensure!(V::from(o.clone()) == *v && o.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<V>() == *v, "value-from", "{m:?}");
            for ((_, v), (_, m)) in o.iter().zip(ms) {
                see_value(v, m)?;
            }
            let mut x = v.clone();
            x.as_object_mut().unwrap().clear();
            ensure!(x == V::Object(hcl::Map::new()), "value-object", "{x:?}");
        }
        _ => unreachable!(),
    }
    Ok(())
}

macro_rules! small_ints {
    ($s:expr, $($t:ty),*) => {$({
        let n = $s.draw(0) as $t;
        let want = N::from_int(n as i128).unwrap();
        let num = build::num(&want);
        ensure!(hcl::Value::from(n) == hcl::Value::Number(num), "from-int", concat!(stringify!($t), " {} as value"), n);
        ensure!(hcl::Expression::from(n) == hcl::Expression::Number(num), "from-int", concat!(stringify!($t), " {} as expression"), n);
        ensure!(ee::Expression::from(n).as_number() == Some(&num), "from-int", concat!(stringify!($t), " {} as edit expression"), n);
        ensure!(Number::from(n) == num, "from-int", concat!(stringify!($t), " {} as number"), n);
    })*};
}

fn values(s: &mut Src, c: &mut Case) -> Res {
    let m = value(s, 0);
    c.input = format!("{m:?}");
    c.nontrivial = matches!(&m, E::Arr(v) if v.len() > 1) || matches!(&m, E::Obj(v) if v.len() > 1);
    let v = to_value(&m);
    see_value(&v, &m)?;
    let x = hcl::Expression::from(v.clone());
    ensure!(hcl::Value::from(x.clone()) == v, "value-expression", "{x:?} for {m:?}");

    let (o, what) = changed(s, &m, |c, e| c.expr(e));
    let dup = |e: &E| {
        let mut d = false;
        walk(e, &mut |e| {
            if let E::Obj(v) = e {
                d |= v.iter().enumerate().any(|(i, (k, _))| v[..i].iter().any(|(o, _)| key_text(o) == key_text(k)));
            }
        });
        d
    };
    if o != m && !dup(&o) {
        c.label(what);
        let w = to_value(&o);
        eq_check(&v, &w, false, what, "value")?;
        eq_check(&x, &hcl::Expression::from(w), false, what, "expression")?;
    }
    eq_check(&v, &to_value(&m), true, what, "value")?;

    small_ints!(s, i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
    let f = f64::from_bits(s.draw(0));
    let want = Number::from_f64(f);
    ensure!(want.is_some() == f.is_finite(), "from-float", "{f}");
    ensure!(hcl::Value::from(f) == want.map_or(hcl::Value::Null, hcl::Value::Number), "from-float", "{f} as value");
    ensure!(hcl::Expression::from(f) == want.map_or(hcl::Expression::Null, hcl::Expression::Number), "from-float", "{f} as expression");
    ensure!(ee::Expression::from(f) == want.map_or(ee::Expression::null(), ee::Expression::from), "from-float", "{f} as edit expression");
    let g = f32::from_bits(s.draw(1 << 32) as u32);
    ensure!(hcl::Value::from(g) == hcl::Value::from(f64::from(g)), "from-float", "{g} as value");
    ensure!(hcl::Expression::from(g) == hcl::Expression::from(f64::from(g)), "from-float", "{g} as expression");
    ensure!(ee::Expression::from(g) == ee::Expression::from(f64::from(g)), "from-float", "{g} as edit expression");
    Ok(())
}

// --- builders ------------------------------------------------------------------------------------

/// The parts, cut into runs.
fn runs<'a>(s: &mut Src, m: &'a [S]) -> Vec<&'a [S]> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < m.len() {
        let n = s.range(1, (m.len() - i).min(4));
        out.push(&m[i..i + n]);
        i += n;
    }
    out
}

fn attr_e(x: &S) -> es::Attribute {
    build::structure(x).into_attribute().unwrap()
}

fn block_e(x: &S) -> es::Block {
    build::structure(x).into_block().unwrap()
}

fn attr_d(x: &S) -> hcl::Attribute {
    build::d_structure(x).into_attribute().unwrap()
}

fn block_d(x: &S) -> hcl::Block {
    build::d_structure(x).into_block().unwrap()
}

macro_rules! by_builder {
    ($s:expr, $b:expr, $m:expr, $attr:ident, $block:ident, $attr1:ident, $attrs:ident, $block1:ident, $blocks:ident, $st1:ident, $sts:ident, $st:expr, $calls:expr) => {{
        let mut b = $b;
        for run in runs($s, $m) {
            $calls += 1;
            let attrs = run.iter().all(|x| matches!(x, S::Attr(..)));
            let blocks = run.iter().all(|x| matches!(x, S::Block(_)));
            let one = run.len() == 1 && $s.bool();
            b = match ($s.below(3), attrs, blocks) {
                (0, true, _) if one => b.$attr1($attr(&run[0])),
                (0, true, _) => b.$attrs(run.iter().map($attr)),
                (0, _, true) if one => b.$block1($block(&run[0])),
                (0, _, true) => b.$blocks(run.iter().map($block)),
                (1, true, _) if one => b.$st1($attr(&run[0])),
                (1, true, _) => b.$sts(run.iter().map($attr)),
                (1, _, true) if one => b.$st1($block(&run[0])),
                (1, _, true) => b.$sts(run.iter().map($block)),
                _ if one => b.$st1($st(&run[0])),
                _ => b.$sts(run.iter().map($st)),
            };
        }
        b
    }};
}

fn label_d(l: &L) -> hcl::BlockLabel {
    match l {
        L::Id(n) => hcl::BlockLabel::from(Identifier::new(n.as_str()).unwrap()),
        L::Str(s) => hcl::BlockLabel::from(s.as_str()),
    }
}

fn tpl_b(s: &mut Src, ts: &[T], calls: &mut usize) -> hcl::Template {
    use hcl::template as ht;
    let mut out = hcl::Template::new();
    let els: Vec<ht::Element> = ts.iter().map(build::d_element).collect();
    for (t, e) in ts.iter().zip(els.iter().cloned()) {
        *calls += 1;
        out = match (e, s.below(3)) {
            (e, 0) => out.add_element(e),
            (ht::Element::Literal(l), 1) => out.add_literal(l),
            (ht::Element::Literal(l), _) => out.add_element(l.as_str()),
            (ht::Element::Interpolation(i), 1) if i.strip == et::Strip::None => out.add_interpolation(i.expr),
            (ht::Element::Interpolation(i), _) => out.add_interpolation(i),
            (ht::Element::Directive(_), 1) if matches!(t, T::If { .. }) => {
                let T::If { cond, then, els, s_if, s_else, s_end } = t else { unreachable!() };
                let then = tpl_b(s, then, calls);
                let mut d = ht::IfDirective::new(build::d_expr(cond), then);
                let order = s.below(2);
                if order == 0 {
                    d = d.with_endif_strip(build::strip(*s_end)).with_if_strip(build::strip(*s_if));
                }
                if let Some(e) = els {
                    let e = tpl_b(s, e, calls);
                    d = if s.bool() { d.with_false_template(e).with_else_strip(build::strip(*s_else)) } else { d.with_else_strip(build::strip(*s_else)).with_false_template(e) };
                }
                if order == 1 {
                    d = d.with_if_strip(build::strip(*s_if)).with_endif_strip(build::strip(*s_end));
                }
                out.add_directive(d)
            }
            (ht::Element::Directive(_), 1) => {
                let T::For { key, val, coll, body, s_for, s_end } = t else { unreachable!() };
                let body = tpl_b(s, body, calls);
                let mut d = ht::ForDirective::new(Identifier::new(val.as_str()).unwrap(), build::d_expr(coll), body).with_endfor_strip(build::strip(*s_end));
                if let Some(k) = key {
                    d = d.with_key_var(Identifier::new(k.as_str()).unwrap());
                }
                out.add_directive(d.with_for_strip(build::strip(*s_for)))
            }
            (ht::Element::Directive(d), _) => out.add_directive(*d),
        };
    }
    out
}

fn builders(s: &mut Src, c: &mut Case) -> Res {
    let m = Gen::new(s).body(2);
    c.input = format!("{m:?}");
    let mut calls = 0;
    let direct = build::body(&m);
    let b = by_builder!(s, es::Body::builder(), &m, attr_e, block_e, attribute, attributes, block, blocks, structure, structures, build::structure, calls);
    let e: es::Body = if s.bool() { b.build() } else { b.into() };
    ensure!(e == direct, "edit-body", "built {e:?}\nfor {m:?}");
    let direct_d = build::d_body(&m);
    let b = by_builder!(s, hcl::Body::builder(), &m, attr_d, block_d, add_attribute, add_attributes, add_block, add_blocks, add_structure, add_structures, build::d_structure, calls);
    let d = b.build();
    ensure!(d == direct_d, "data-body", "built {d:?}\nfor {m:?}");

    for x in &m {
        let S::Block(x) = x else { continue };
        let mut b = es::Block::builder(Ident::new(&x.ident));
        let mut h = if s.bool() { hcl::Block::builder(x.ident.as_str()) } else { hcl::structure::BlockBuilder::new(Identifier::new(x.ident.as_str()).unwrap()) };
        let mut rest = &x.labels[..];
        while !rest.is_empty() {
            calls += 1;
            let n = s.range(1, rest.len());
            if n == 1 && s.bool() {
                b = b.label(build::label(&rest[0]));
                h = h.add_label(label_d(&rest[0]));
            } else {
                b = b.labels(rest[..n].iter().map(build::label));
                h = h.add_labels(rest[..n].iter().map(label_d));
            }
            rest = &rest[n..];
        }
        let b = by_builder!(s, b, &x.body, attr_e, block_e, attribute, attributes, block, blocks, structure, structures, build::structure, calls);
        let b: es::Block = if s.bool() { b.build() } else { b.into() };
        ensure!(b == build::block(x), "edit-block", "built {b:?}\nfor {x:?}");
        let h = by_builder!(s, h, &x.body, attr_d, block_d, add_attribute, add_attributes, add_block, add_blocks, add_structure, add_structures, build::d_structure, calls).build();
        let want = block_d(&S::Block(x.clone()));
        ensure!(h == want, "data-block", "built {h:?}\nfor {x:?}");
        let labels: Vec<hcl::BlockLabel> = x.labels.iter().map(label_d).collect();
        let body = build::d_body(&x.body);
        ensure!(h.identifier() == x.ident && h.labels() == labels && *h.body() == body, "data-block", "{h:?}\nfor {x:?}");
        // Tuples.
        let id = Identifier::new(x.ident.as_str()).unwrap();
        ensure!(hcl::Block::from((id.clone(), labels.clone(), body.clone())) == want, "block-from", "(ident, labels, body) for {x:?}");
        if labels.is_empty() {
            ensure!(hcl::Block::from((id, body)) == want, "block-from", "(ident, body) for {x:?}");
        }
    }
    for x in direct_d.attributes() {
        ensure!(hcl::Attribute::from((x.key.clone(), x.expr.clone())) == *x, "attribute-from", "{x:?}");
        ensure!(x.key() == x.key.as_str() && *x.expr() == x.expr, "attribute", "{x:?}");
    }

    // Lists.
    let v: Vec<hcl::Structure> = m.iter().map(build::d_structure).collect();
    let mut w = v.clone();
    ensure!(hcl::Body::from(v.clone()) == d && hcl::Body::from(&v[..]) == d && hcl::Body::from(&mut w[..]) == d && v.iter().cloned().collect::<hcl::Body>() == d && d.clone().into_inner() == v, "body-from", "{v:?}");
    if let [a, b] = &v[..] {
        ensure!(hcl::Body::from([a.clone(), b.clone()]) == d, "body-from", "{v:?}");
    }
    if let [a] = &v[..] {
        ensure!(hcl::Body::from(a.clone()) == d, "body-from", "{v:?}");
    }
    let cut = s.below(v.len() + 1);
    let mut x = hcl::Body::from(&v[..cut]);
    x.extend(v[cut..].iter().cloned());
    ensure!(x == d, "body-extend", "{v:?}");
    let v: Vec<es::Structure> = m.iter().map(build::structure).collect();
    let mut x = es::Body::from(v[..cut].to_vec());
    x.extend(v[cut..].iter().cloned());
    ensure!(x == e && v.iter().cloned().collect::<es::Body>() == e && es::Body::from(v) == e, "body-extend", "{m:?}");

    // Expressions.
    let mut tpls: Vec<&Vec<T>> = Vec::new();
    let mut exprs: Vec<&E> = Vec::new();
    walk_body(&m, &mut |e| {
        exprs.push(e);
        if let E::Tpl(t) = e {
            tpls.push(t);
        }
    });
    for ts in tpls.into_iter().take(4) {
        let ts = merge(ts);
        let x = tpl_b(s, &ts, &mut calls);
        let want = build::d_template(&ts);
        ensure!(x == want, "template", "built {x:?}\nfor {ts:?}");
        ensure!(x.elements() == want.elements() && x.elements().len() == ts.len(), "template", "{x:?}\nfor {ts:?}");
    }
    for e in exprs {
        use hcl::expr as x;
        let want = build::d_expr(e);
        match e {
            E::Trav(b, ops) => {
                let mut t = x::Traversal::builder(build::d_expr(b));
                for o in ops {
                    t = match o {
                        Op::Attr(n) => t.attr(Identifier::new(n.as_str()).unwrap()),
                        Op::Index(e) => t.index(build::d_expr(e)),
                        Op::AttrSplat => t.attr_splat(),
                        Op::FullSplat => t.full_splat(),
                        Op::Legacy(_) => break,
                    };
                    calls += 1;
                }
                if ops.iter().all(|o| !matches!(o, Op::Legacy(_))) {
                    let t = hcl::Expression::from(t.build());
                    ensure!(t == want, "traversal", "built {t:?}\nfor {e:?}");
                }
                let ops = ops.iter().map(|o| match o {
                    Op::Attr(n) => x::TraversalOperator::from(Identifier::new(n.as_str()).unwrap()),
                    Op::Index(e) => x::TraversalOperator::from(build::d_expr(e)),
                    Op::AttrSplat => x::TraversalOperator::AttrSplat,
                    Op::FullSplat => x::TraversalOperator::FullSplat,
                    Op::Legacy(n) => x::TraversalOperator::from(*n),
                });
                let t = hcl::Expression::from(x::Traversal::new(build::d_expr(b), ops));
                ensure!(t == want, "traversal-from", "built {t:?}\nfor {e:?}");
            }
            E::Call(n, a, ex) => {
                let name = x::FuncName::new(n.last().unwrap().as_str()).with_namespace(n[..n.len() - 1].iter().map(String::as_str));
                ensure!(name.is_namespaced() == (n.len() > 1) && name.to_string() == n.join("::"), "func-name", "{name} for {n:?}");
                let mut b = x::FuncCall::builder(name.clone());
                let early = s.bool();
                if early {
                    b = b.expand_final(*ex);
                }
                for a in a {
                    b = b.arg(build::d_expr(a));
                    calls += 1;
                }
                if !early && (*ex || s.bool()) {
                    b = b.expand_final(*ex);
                }
                let f = b.build();
                ensure!(hcl::Expression::from(f.clone()) == want && f.args.len() == a.len(), "func-call", "built {f:?}\nfor {e:?}");
                let f = x::FuncCall::new(name);
                ensure!(f.args.is_empty() && !f.expand_final, "func-call", "{f:?}");
            }
            E::For(f) => {
                let mut b = x::ForExpr::new(Identifier::new(f.val_var.as_str()).unwrap(), build::d_expr(&f.coll), build::d_expr(&f.val));
                ensure!(b.key_var.is_none() && b.key_expr.is_none() && !b.grouping && b.cond_expr.is_none(), "for-expr", "{b:?}");
                if let Some(c) = &f.cond {
                    b = b.with_cond_expr(build::d_expr(c));
                }
                b = b.with_grouping(f.grouping);
                if let Some(k) = &f.key {
                    b = b.with_key_expr(build::d_expr(k));
                }
                if let Some(k) = &f.key_var {
                    b = b.with_key_var(Identifier::new(k.as_str()).unwrap());
                }
                calls += 3;
                let b = hcl::Expression::from(b);
                ensure!(b == want, "for-expr", "built {b:?}\nfor {e:?}");
            }
            E::Arr(v) => {
                let v: Vec<hcl::Expression> = v.iter().map(build::d_expr).collect();
                ensure!(hcl::Expression::from(v.clone()) == want && hcl::Expression::from(&v[..]) == want && v.into_iter().collect::<hcl::Expression>() == want, "array", "{e:?}");
            }
            E::Obj(v) => {
                let x: hcl::Expression = v.iter().map(|(k, v)| (build::d_key(k), build::d_expr(v))).collect();
                ensure!(x == want, "object", "{x:?}\nfor {e:?}");
            }
            E::Str(t) => {
                let all = [hcl::Expression::from(t.as_str()), hcl::Expression::from(t.clone()), hcl::Expression::from(Cow::Borrowed(t.as_str()))];
                ensure!(all.iter().all(|x| *x == want), "string", "{all:?}");
                let k = [hcl::ObjectKey::from(t.as_str()), hcl::ObjectKey::from(t.clone())];
                ensure!(k.iter().all(|k| *k == hcl::ObjectKey::Expression(want.clone())), "object-key", "{k:?}");
            }
            E::Heredoc(h) => {
                let mode = if h.flush { x::HeredocStripMode::Indent } else { x::HeredocStripMode::None };
                let y = x::Heredoc::new(Identifier::new(h.delim.as_str()).unwrap(), build::raw_tpl(&h.tpl));
                ensure!(y.strip == x::HeredocStripMode::None, "heredoc", "{y:?}");
                let y = y.with_strip_mode(mode);
                ensure!(hcl::Expression::from(y.clone()) == want && hcl::Expression::from(x::TemplateExpr::from(y.clone())) == want && y.strip == mode, "heredoc", "{y:?}");
                ensure!(mode.as_str() == if h.flush { "<<-" } else { "<<" } && x::HeredocStripMode::from_str(mode.as_str()).is_ok_and(|m| m == mode), "heredoc-mode", "{mode:?}");
            }
            E::Var(n) => ensure!(hcl::Expression::from(x::Variable::new(n.as_str()).unwrap()) == want, "variable", "{e:?}"),
            E::Un(o, i) => ensure!(hcl::Expression::from(x::UnaryOp::new(build::unop(*o), build::d_expr(i))) == want, "unary", "{e:?}"),
            E::Bin(l, o, r) => ensure!(hcl::Expression::from(x::BinaryOp::new(build::d_expr(l), build::binop(*o), build::d_expr(r))) == want, "binary", "{e:?}"),
            _ => {}
        }
    }
    c.nontrivial = calls >= 3;
    Ok(())
}

// --- iterators -----------------------------------------------------------------------------------

fn drain<A: PartialEq + std::fmt::Debug>(s: &mut Src, what: &str, mut it: impl DoubleEndedIterator<Item = A>, want: Vec<A>, exact: bool) -> Res {
    let mut want: VecDeque<A> = want.into();
    loop {
        let (lo, hi) = it.size_hint();
        ensure!(lo <= want.len() && hi.is_none_or(|h| h >= want.len()), format!("size-hint:{what}"), "{what}: size_hint is {lo}, {hi:?} with {} to come", want.len());
        ensure!(!exact || (lo, hi) == (want.len(), Some(want.len())), format!("size-hint:{what}"), "{what}: size_hint is {lo}, {hi:?} with {} to come", want.len());
        let (got, exp) = match s.below(4) {
            0 | 1 => (it.next(), want.pop_front()),
            2 => (it.next_back(), want.pop_back()),
            _ => {
                let n = s.below(3);
                let exp = if n < want.len() {
                    want.drain(..n);
                    want.pop_front()
                } else {
                    want.clear();
                    None
                };
                (it.nth(n), exp)
            }
        };
        ensure!(got == exp, format!("iter:{what}"), "{what}: {got:?} instead of {exp:?}");
        if exp.is_none() && want.is_empty() {
            break;
        }
    }
    ensure!(it.next().is_none() && it.next_back().is_none() && it.next().is_none(), format!("fused:{what}"), "{what}: goes on after its end");
    Ok(())
}

fn iterators(s: &mut Src, c: &mut Case) -> Res {
    let m = Gen::new(s).body(2);
    c.input = format!("{m:?}");
    c.nontrivial = m.len() > 1;
    {
        let b = build::d_body(&m);
        let all: Vec<hcl::Structure> = b.0.clone();
        let attrs: Vec<hcl::Attribute> = all.iter().filter_map(|x| if let hcl::Structure::Attribute(a) = x { Some(a.clone()) } else { None }).collect();
        let blocks: Vec<hcl::Block> = all.iter().filter_map(|x| if let hcl::Structure::Block(a) = x { Some(a.clone()) } else { None }).collect();
        ensure!(b.iter().len() == all.len(), "len", "{m:?}");
        for x in &all {
            let a = matches!(x, hcl::Structure::Attribute(_));
            let mut y = x.clone();
            let is = [x.is_attribute(), !x.is_block(), x.as_attribute().is_some(), x.as_block().is_none(), y.as_attribute_mut().is_some(), y.as_block_mut().is_none(), x.clone().into_attribute().is_some(), x.clone().into_block().is_none()];
            ensure!(is.iter().all(|i| *i == a), "structure-kind", "{is:?} for {x:?}");
        }
        drain(s, "iter", b.iter(), all.iter().collect(), true)?;
        drain(s, "&body", (&b).into_iter(), all.iter().collect(), true)?;
        drain(s, "into_iter", b.clone().into_iter(), all.clone(), true)?;
        drain(s, "attributes", b.attributes(), attrs.iter().collect(), false)?;
        drain(s, "into_attributes", b.clone().into_attributes(), attrs.clone(), false)?;
        drain(s, "blocks", b.blocks(), blocks.iter().collect(), false)?;
        drain(s, "into_blocks", b.clone().into_blocks(), blocks.clone(), false)?;
        let mut x = b.clone();
        drain(s, "iter_mut", x.iter_mut(), all.clone().iter_mut().collect(), true)?;
        drain(s, "&mut body", (&mut x).into_iter(), all.clone().iter_mut().collect(), true)?;
        drain(s, "attributes_mut", x.attributes_mut(), attrs.clone().iter_mut().collect(), false)?;
        drain(s, "blocks_mut", x.blocks_mut(), blocks.clone().iter_mut().collect(), false)?;
        // What is changed on the way stays changed.
        let half = s.below(attrs.len() + 1);
        {
            let mut it = x.attributes_mut();
            for _ in 0..half {
                it.next().unwrap().expr = hcl::Expression::from("front");
            }
            for _ in half..attrs.len() {
                it.next_back().unwrap().expr = hcl::Expression::from("back");
            }
        }
        for (i, a) in x.attributes().enumerate() {
            ensure!(a.expr == hcl::Expression::from(if i < half { "front" } else { "back" }) && a.key == attrs[i].key, "attributes_mut", "{x:?}");
        }
        let cl: Vec<_> = b.iter().clone().cloned().collect();
        ensure!(cl == all && b.attributes().clone().count() == attrs.len() && b.blocks().clone().count() == blocks.len(), "clone", "{m:?}");
    }
    Ok(())
}
