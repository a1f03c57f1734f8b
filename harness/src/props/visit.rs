//! C07: the default traversals reach every node once and in order.

use super::parse::{doc, ex, tpl};
use super::t;
use crate::build;
use crate::engine::{Case, Fail, Prop, Res, Test};
use crate::ensure;
use crate::gen::Gen;
use crate::model::*;
use crate::reify;
use crate::spans::expr_kind;
use crate::src::Src;
use hcl_edit::expr::*;
use hcl_edit::structure::*;
use hcl_edit::template::*;
use hcl_edit::visit::{self, Visit};
use hcl_edit::visit_mut::{self, VisitMut};
use hcl_edit::{Decorate, Decorated, Formatted, Ident, Number, Span, Spanned};

pub fn add(p: &mut Vec<Prop>, ts: &mut Vec<Test>) {
    p.push(Prop {
        id: "C07",
        rule: "the document has at least ten nodes",
    });
    ts.push(t("C07", "body", 12_000, 200_000, body));
    ts.push(t("C07", "expr", 12_000, 200_000, expr));
    ts.push(t("C07", "template", 8_000, 120_000, template));
    ts.push(t("C07", "built", 8_000, 120_000, built));
    ts.push(t("C07", "order", 20_000, 300_000, order));
    ts.push(t("C07", "map", 20_000, 300_000, map));
    ts.push(t("C07", "one", 30_000, 400_000, one));
    ts.push(t("C07", "replace", 20_000, 300_000, replace));
}

/// What is written down about a visited node.
type Ev = (usize, &'static str, String);

enum Root {
    Body(Body),
    Expr(Expression),
    Template(Template),
}

impl Root {
    fn visit(&self, v: &mut dyn Visit) {
        match self {
            Root::Body(b) => v.visit_body(b),
            Root::Expr(b) => v.visit_expr(b),
            Root::Template(b) => v.visit_template(b),
        }
    }
    fn visit_mut(&mut self, v: &mut dyn VisitMut) {
        match self {
            Root::Body(b) => v.visit_body_mut(b),
            Root::Expr(b) => v.visit_expr_mut(b),
            Root::Template(b) => v.visit_template_mut(b),
        }
    }
    fn expected(&self, mutable: bool) -> Vec<Ev> {
        let mut w = Walk { out: Vec::new(), d: 0, mutable };
        match self {
            Root::Body(b) => w.body(&reify::body(b)),
            Root::Expr(b) => w.expr(&reify::expr(b)),
            Root::Template(b) => w.template(&reify::template(b)),
        }
        w.out
    }
    fn text(&self) -> String {
        match self {
            Root::Body(b) => b.to_string(),
            Root::Expr(b) => b.to_string(),
            Root::Template(b) => b.to_string(),
        }
    }
    fn reparse(&self, text: &str) -> Option<Root> {
        Some(match self {
            Root::Body(_) => Root::Body(hcl_edit::parser::parse_body(text).ok()?),
            Root::Expr(_) => Root::Expr(hcl_edit::parser::parse_expr(text).ok()?),
            Root::Template(_) => Root::Template(hcl_edit::parser::parse_template(text).ok()?),
        })
    }
    fn clone(&self) -> Root {
        match self {
            Root::Body(b) => Root::Body(b.clone()),
            Root::Expr(b) => Root::Expr(b.clone()),
            Root::Template(b) => Root::Template(b.clone()),
        }
    }
    fn tree(&self) -> Tree {
        match self {
            Root::Body(b) => Tree::Body(reify::body(b)),
            Root::Expr(b) => Tree::Expr(reify::expr(b)),
            Root::Template(b) => Tree::Template(reify::template(b)),
        }
    }
}

#[derive(Debug, PartialEq)]
enum Tree {
    Body(Vec<S>),
    Expr(E),
    Template(Vec<T>),
}

// --- the events a traversal has to produce -------------------------------------------------------

struct Walk {
    out: Vec<Ev>,
    d: usize,
    mutable: bool,
}

impl Walk {
    fn at(&mut self, kind: &'static str, pay: impl Into<String>, f: impl FnOnce(&mut Self)) {
        self.out.push((self.d, kind, pay.into()));
        self.d += 1;
        f(self);
        self.d -= 1;
    }
    fn leaf(&mut self, kind: &'static str, pay: impl Into<String>) {
        self.at(kind, pay, |_| {});
    }
    fn body(&mut self, b: &[S]) {
        self.at("body", b.len().to_string(), |w| {
            for s in b {
                match s {
                    S::Attr(k, e) => w.at("structure", "attribute", |w| {
                        w.at("attr", k.clone(), |w| {
                            if !w.mutable {
                                w.leaf("ident", k.clone());
                            }
                            w.expr(e);
                        });
                    }),
                    S::Block(b) => w.at("structure", "block", |w| {
                        w.at("block", b.ident.clone(), |w| {
                            w.leaf("ident", b.ident.clone());
                            for l in &b.labels {
                                match l {
                                    L::Id(i) => w.at("block_label", "ident", |w| w.leaf("ident", i.clone())),
                                    L::Str(i) => w.at("block_label", "string", |w| w.leaf("string", i.clone())),
                                }
                            }
                            w.body(&b.body);
                        });
                    }),
                }
            }
        });
    }
    fn elements(&mut self, ts: &[T]) {
        for t in ts {
            match t {
                T::Lit(s) => self.at("element", "literal", |w| w.leaf("literal", s.clone())),
                T::Interp(e, s) => self.at("element", "interpolation", |w| w.at("interpolation", format!("{s:?}"), |w| w.expr(e))),
                T::If { cond, then, els, s_if, s_else, s_end } => self.at("element", "directive", |w| {
                    w.at("directive", "if", |w| {
                        w.at("if_directive", "", |w| {
                            w.at("if_template_expr", format!("{s_if:?}"), |w| {
                                w.expr(cond);
                                w.template(then);
                            });
                            if let Some(e) = els {
                                w.at("else_template_expr", format!("{s_else:?}"), |w| w.template(e));
                            }
                            w.leaf("endif_template_expr", format!("{s_end:?}"));
                        });
                    });
                }),
                T::For { key, val, coll, body, s_for, s_end } => self.at("element", "directive", |w| {
                    w.at("directive", "for", |w| {
                        w.at("for_directive", "", |w| {
                            w.at("for_template_expr", format!("{s_for:?}"), |w| {
                                if let Some(k) = key {
                                    w.leaf("ident", k.clone());
                                }
                                w.leaf("ident", val.clone());
                                w.expr(coll);
                                w.template(body);
                            });
                            w.leaf("endfor_template_expr", format!("{s_end:?}"));
                        });
                    });
                }),
            }
        }
    }
    fn template(&mut self, ts: &[T]) {
        self.at("template", "", |w| w.elements(ts));
    }
    fn expr(&mut self, e: &E) {
        let kind = expr_kind(&build::expr(&shallow(e)));
        self.at("expr", kind, |w| match e {
            E::Null => w.leaf("null", ""),
            E::Bool(b) => w.leaf("bool", b.to_string()),
            E::Num(n) => w.leaf("number", format!("{n:?}")),
            E::Str(s) => w.leaf("string", s.clone()),
            E::Arr(v) => w.at("array", v.len().to_string(), |w| v.iter().for_each(|e| w.expr(e))),
            E::Obj(v) => w.at("object", v.len().to_string(), |w| {
                for (k, e) in v {
                    w.at("object_item", "", |w| {
                        w.at("object_key", key_pay(k), |w| {
                            if !w.mutable {
                                match k {
                                    K::Id(i) => w.leaf("ident", i.clone()),
                                    K::Ex(e) => w.expr(e),
                                }
                            }
                        });
                        w.at("object_value", "", |w| w.expr(e));
                    });
                }
            }),
            E::Tpl(ts) => w.at("string_template", "", |w| w.elements(ts)),
            E::Heredoc(h) => w.at("heredoc_template", h.delim.clone(), |w| w.template(&h.tpl)),
            E::Var(i) => w.leaf("ident", i.clone()),
            E::Paren(e) => w.at("parenthesis", "", |w| w.expr(e)),
            E::Call(name, args, expand) => w.at("func_call", "", |w| {
                w.at("func_name", (name.len() - 1).to_string(), |w| name.iter().for_each(|n| w.leaf("ident", n.clone())));
                w.at("func_args", format!("{} {expand}", args.len()), |w| args.iter().for_each(|e| w.expr(e)));
            }),
            E::Cond(c) => w.at("conditional", "", |w| {
                w.expr(&c.0);
                w.expr(&c.1);
                w.expr(&c.2);
            }),
            E::Un(o, e) => w.at("unary_op", "", |w| {
                w.leaf("unary_operator", format!("{o:?}"));
                w.expr(e);
            }),
            E::Bin(l, o, r) => w.at("binary_op", "", |w| {
                w.expr(l);
                w.leaf("binary_operator", format!("{o:?}"));
                w.expr(r);
            }),
            E::Trav(e, ops) => w.at("traversal", ops.len().to_string(), |w| {
                w.expr(e);
                for o in ops {
                    match o {
                        Op::Attr(i) => w.at("traversal_operator", "attr", |w| w.leaf("ident", i.clone())),
                        Op::Legacy(i) => w.at("traversal_operator", "legacy", |w| w.leaf("u64", i.to_string())),
                        Op::Index(e) => w.at("traversal_operator", "index", |w| w.expr(e)),
                        Op::AttrSplat => w.at("traversal_operator", "attr-splat", |w| w.leaf("splat", "")),
                        Op::FullSplat => w.at("traversal_operator", "full-splat", |w| w.leaf("splat", "")),
                    }
                }
            }),
            E::For(f) => w.at("for_expr", f.grouping.to_string(), |w| {
                w.at("for_intro", "", |w| {
                    if let Some(k) = &f.key_var {
                        w.leaf("ident", k.clone());
                    }
                    w.leaf("ident", f.val_var.clone());
                    w.expr(&f.coll);
                });
                if let Some(k) = &f.key {
                    w.expr(k);
                }
                w.expr(&f.val);
                if let Some(c) = &f.cond {
                    w.at("for_cond", "", |w| w.expr(c));
                }
            }),
        });
    }
}

/// An expression of the same kind without most of its parts.
fn shallow(e: &E) -> E {
    let n = || Box::new(E::Null);
    match e {
        E::Arr(_) => E::Arr(vec![]),
        E::Obj(_) => E::Obj(vec![]),
        E::Tpl(_) => E::Tpl(vec![]),
        E::Heredoc(h) => E::Heredoc(Box::new(Hd { delim: h.delim.clone(), flush: false, tpl: vec![] })),
        E::Paren(_) => E::Paren(n()),
        E::Call(..) => E::Call(vec!["f".into()], vec![], false),
        E::Cond(_) => E::Cond(Box::new((E::Null, E::Null, E::Null))),
        E::Un(o, _) => E::Un(*o, n()),
        E::Bin(_, o, _) => E::Bin(n(), *o, n()),
        E::Trav(..) => E::Trav(n(), vec![]),
        E::For(_) => E::For(Box::new(ForE { key_var: None, val_var: "v".into(), coll: E::Null, key: None, val: E::Null, grouping: false, cond: None })),
        o => o.clone(),
    }
}

fn key_pay(k: &K) -> String {
    match k {
        K::Id(i) => i.clone(),
        K::Ex(e) => format!("{e:?}"),
    }
}

// --- the visitors --------------------------------------------------------------------------------

trait Pay {
    fn pay(&self) -> String;
}

macro_rules! pay {
    ($($ty:ty, $n:ident => $e:expr;)*) => {
        $(impl Pay for $ty {
            fn pay(&self) -> String {
                let $n = self;
                $e.to_string()
            }
        })*
    };
}

pay! {
    Decorated<Ident>, n => n.as_str();
    Decorated<Null>, _n => "";
    Decorated<bool>, n => n.value();
    Decorated<u64>, n => n.value();
    Formatted<Number>, n => format!("{:?}", reify::number(n.value()));
    Decorated<String>, n => n.value();
    Decorated<Splat>, _n => "";
    Spanned<String>, n => n.value();
    Spanned<UnaryOperator>, n => format!("{:?}", reify::unop(*n.value()));
    Decorated<BinaryOperator>, n => format!("{:?}", reify::binop(*n.value()));
    EndifTemplateExpr, n => format!("{:?}", reify::strip(n.strip));
    EndforTemplateExpr, n => format!("{:?}", reify::strip(n.strip));
    Body, n => n.len();
    Structure, n => if n.is_attribute() { "attribute" } else { "block" };
    StructureMut<'_>, n => if n.is_attribute() { "attribute" } else { "block" };
    Attribute, n => n.key.as_str();
    AttributeMut<'_>, n => n.get().key.as_str();
    Block, n => n.ident.as_str();
    BlockLabel, n => match n { BlockLabel::Ident(_) => "ident", BlockLabel::String(_) => "string" };
    Expression, n => expr_kind(n);
    Array, n => n.len();
    Object, n => n.len();
    ObjectKey, n => key_pay(&reify::key(n));
    ObjectKeyMut<'_>, n => n.get().pay();
    ObjectValue, _n => "";
    Parenthesis, _n => "";
    Conditional, _n => "";
    UnaryOp, _n => "";
    BinaryOp, _n => "";
    Traversal, n => n.operators.len();
    TraversalOperator, n => match n {
        TraversalOperator::AttrSplat(_) => "attr-splat",
        TraversalOperator::FullSplat(_) => "full-splat",
        TraversalOperator::GetAttr(_) => "attr",
        TraversalOperator::Index(_) => "index",
        TraversalOperator::LegacyIndex(_) => "legacy",
    };
    FuncCall, _n => "";
    FuncName, n => n.namespace.len();
    FuncArgs, n => format!("{} {}", n.len(), n.expand_final());
    ForExpr, n => n.grouping;
    ForIntro, _n => "";
    ForCond, _n => "";
    StringTemplate, _n => "";
    HeredocTemplate, n => n.delimiter.as_str();
    Template, _n => "";
    Element, n => match n {
        Element::Literal(_) => "literal",
        Element::Interpolation(_) => "interpolation",
        Element::Directive(_) => "directive",
    };
    Interpolation, n => format!("{:?}", reify::strip(n.strip));
    Directive, n => match n { Directive::If(_) => "if", Directive::For(_) => "for" };
    IfDirective, _n => "";
    ForDirective, _n => "";
    IfTemplateExpr, n => format!("{:?}", reify::strip(n.strip));
    ElseTemplateExpr, n => format!("{:?}", reify::strip(n.strip));
    ForTemplateExpr, n => format!("{:?}", reify::strip(n.strip));
}

macro_rules! kinds {
    ($go:ident) => {
        $go! {
            leaves {
                ident visit_ident visit_ident_mut Decorated<Ident>,
                null visit_null visit_null_mut Decorated<Null>,
                bool visit_bool visit_bool_mut Decorated<bool>,
                u64 visit_u64 visit_u64_mut Decorated<u64>,
                number visit_number visit_number_mut Formatted<Number>,
                string visit_string visit_string_mut Decorated<String>,
                splat visit_splat visit_splat_mut Decorated<Splat>,
                literal visit_literal visit_literal_mut Spanned<String>,
                unary_operator visit_unary_operator visit_unary_operator_mut Spanned<UnaryOperator>,
                binary_operator visit_binary_operator visit_binary_operator_mut Decorated<BinaryOperator>,
                endif_template_expr visit_endif_template_expr visit_endif_template_expr_mut EndifTemplateExpr,
                endfor_template_expr visit_endfor_template_expr visit_endfor_template_expr_mut EndforTemplateExpr,
            }
            nodes {
                body visit_body visit_body_mut Body,
                block visit_block visit_block_mut Block,
                block_label visit_block_label visit_block_label_mut BlockLabel,
                expr visit_expr visit_expr_mut Expression,
                array visit_array visit_array_mut Array,
                object visit_object visit_object_mut Object,
                object_value visit_object_value visit_object_value_mut ObjectValue,
                parenthesis visit_parenthesis visit_parenthesis_mut Parenthesis,
                conditional visit_conditional visit_conditional_mut Conditional,
                unary_op visit_unary_op visit_unary_op_mut UnaryOp,
                binary_op visit_binary_op visit_binary_op_mut BinaryOp,
                traversal visit_traversal visit_traversal_mut Traversal,
                traversal_operator visit_traversal_operator visit_traversal_operator_mut TraversalOperator,
                func_call visit_func_call visit_func_call_mut FuncCall,
                func_name visit_func_name visit_func_name_mut FuncName,
                func_args visit_func_args visit_func_args_mut FuncArgs,
                for_expr visit_for_expr visit_for_expr_mut ForExpr,
                for_intro visit_for_intro visit_for_intro_mut ForIntro,
                for_cond visit_for_cond visit_for_cond_mut ForCond,
                string_template visit_string_template visit_string_template_mut StringTemplate,
                heredoc_template visit_heredoc_template visit_heredoc_template_mut HeredocTemplate,
                template visit_template visit_template_mut Template,
                element visit_element visit_element_mut Element,
                interpolation visit_interpolation visit_interpolation_mut Interpolation,
                directive visit_directive visit_directive_mut Directive,
                if_directive visit_if_directive visit_if_directive_mut IfDirective,
                for_directive visit_for_directive visit_for_directive_mut ForDirective,
                if_template_expr visit_if_template_expr visit_if_template_expr_mut IfTemplateExpr,
                else_template_expr visit_else_template_expr visit_else_template_expr_mut ElseTemplateExpr,
                for_template_expr visit_for_template_expr visit_for_template_expr_mut ForTemplateExpr,
            }
        }
    };
}

/// Overrides every method.
#[derive(Default)]
struct All {
    out: Vec<Ev>,
    d: usize,
}

macro_rules! all {
    (leaves { $($lk:ident $lm:ident $lmm:ident $lt:ty,)* } nodes { $($nk:ident $nm:ident $nmm:ident $nt:ty,)* }) => {
        impl Visit for All {
            $(fn $lm(&mut self, node: &$lt) {
                self.out.push((self.d, stringify!($lk), node.pay()));
            })*
            $(fn $nm(&mut self, node: &$nt) {
                self.out.push((self.d, stringify!($nk), node.pay()));
                self.d += 1;
                visit::$nm(self, node);
                self.d -= 1;
            })*
            fn visit_structure(&mut self, node: &Structure) {
                self.out.push((self.d, "structure", node.pay()));
                self.d += 1;
                visit::visit_structure(self, node);
                self.d -= 1;
            }
            fn visit_attr(&mut self, node: &Attribute) {
                self.out.push((self.d, "attr", node.pay()));
                self.d += 1;
                visit::visit_attr(self, node);
                self.d -= 1;
            }
            fn visit_object_key(&mut self, node: &ObjectKey) {
                self.out.push((self.d, "object_key", node.pay()));
                self.d += 1;
                visit::visit_object_key(self, node);
                self.d -= 1;
            }
            fn visit_object_item(&mut self, key: &ObjectKey, value: &ObjectValue) {
                self.out.push((self.d, "object_item", String::new()));
                self.d += 1;
                visit::visit_object_item(self, key, value);
                self.d -= 1;
            }
        }
        impl VisitMut for All {
            $(fn $lmm(&mut self, node: &mut $lt) {
                self.out.push((self.d, stringify!($lk), node.pay()));
            })*
            $(fn $nmm(&mut self, node: &mut $nt) {
                self.out.push((self.d, stringify!($nk), node.pay()));
                self.d += 1;
                visit_mut::$nmm(self, node);
                self.d -= 1;
            })*
            fn visit_structure_mut(&mut self, node: StructureMut) {
                self.out.push((self.d, "structure", node.pay()));
                self.d += 1;
                visit_mut::visit_structure_mut(self, node);
                self.d -= 1;
            }
            fn visit_attr_mut(&mut self, node: AttributeMut) {
                self.out.push((self.d, "attr", node.pay()));
                self.d += 1;
                visit_mut::visit_attr_mut(self, node);
                self.d -= 1;
            }
            fn visit_object_key_mut(&mut self, node: ObjectKeyMut) {
                self.out.push((self.d, "object_key", node.pay()));
            }
            fn visit_object_item_mut(&mut self, key: ObjectKeyMut, value: &mut ObjectValue) {
                self.out.push((self.d, "object_item", String::new()));
                self.d += 1;
                visit_mut::visit_object_item_mut(self, key, value);
                self.d -= 1;
            }
        }
    };
}
kinds!(all);

/// One visitor per method, which overrides only that one. All others are the trait's own.
type Single = (&'static str, fn(&Root) -> Vec<String>, fn(&mut Root) -> Vec<String>);

macro_rules! single {
    ($kind:expr, $m:ident, $ty:ty, $mm:ident, $mty:ty, $n:ident, $v:ident, $go:expr, $gom:expr) => {{
        struct V(Vec<String>);
        impl Visit for V {
            fn $m(&mut self, $n: $ty) {
                self.0.push($n.pay());
                let $v = self;
                $go;
            }
        }
        impl VisitMut for V {
            fn $mm(&mut self, $n: $mty) {
                self.0.push($n.pay());
                let $v = self;
                $gom;
            }
        }
        fn read(r: &Root) -> Vec<String> {
            let mut v = V(Vec::new());
            r.visit(&mut v);
            v.0
        }
        fn write(r: &mut Root) -> Vec<String> {
            let mut v = V(Vec::new());
            r.visit_mut(&mut v);
            v.0
        }
        ($kind, read, write)
    }};
}

macro_rules! singles {
    (leaves { $($lk:ident $lm:ident $lmm:ident $lt:ty,)* } nodes { $($nk:ident $nm:ident $nmm:ident $nt:ty,)* }) => {
        fn singles() -> Vec<Single> {
            struct ItemV(Vec<String>);
            impl Visit for ItemV {
                fn visit_object_item(&mut self, key: &ObjectKey, value: &ObjectValue) {
                    self.0.push(String::new());
                    visit::visit_object_item(self, key, value);
                }
            }
            impl VisitMut for ItemV {
                fn visit_object_item_mut(&mut self, key: ObjectKeyMut, value: &mut ObjectValue) {
                    self.0.push(String::new());
                    visit_mut::visit_object_item_mut(self, key, value);
                }
            }
            fn read(r: &Root) -> Vec<String> {
                let mut v = ItemV(Vec::new());
                r.visit(&mut v);
                v.0
            }
            fn write(r: &mut Root) -> Vec<String> {
                let mut v = ItemV(Vec::new());
                r.visit_mut(&mut v);
                v.0
            }
            let item: Single = ("object_item", read, write);
            vec![
                $(single!(stringify!($lk), $lm, &$lt, $lmm, &mut $lt, n, v, { let _ = v; }, { let _ = v; }),)*
                $(single!(stringify!($nk), $nm, &$nt, $nmm, &mut $nt, n, v, visit::$nm(v, n), visit_mut::$nmm(v, n)),)*
                single!("structure", visit_structure, &Structure, visit_structure_mut, StructureMut, n, v, visit::visit_structure(v, n), visit_mut::visit_structure_mut(v, n)),
                single!("attr", visit_attr, &Attribute, visit_attr_mut, AttributeMut, n, v, visit::visit_attr(v, n), visit_mut::visit_attr_mut(v, n)),
                single!("object_key", visit_object_key, &ObjectKey, visit_object_key_mut, ObjectKeyMut, n, v, visit::visit_object_key(v, n), { let _ = v; }),
                item,
            ]
        }
    };
}
kinds!(singles);

/// Adjacent literals count as one, empty ones as none.
fn merged(evs: Vec<Ev>) -> Vec<Ev> {
    let mut out: Vec<Ev> = Vec::new();
    let mut it = evs.into_iter().peekable();
    while let Some(e) = it.next() {
        if e.1 == "element" && e.2 == "literal" && it.peek().is_some_and(|n| n.1 == "literal" && n.0 == e.0 + 1) {
            let lit = it.next().unwrap();
            if lit.2.is_empty() {
                continue;
            }
            let n = out.len();
            if n >= 2 && out[n - 1].1 == "literal" && out[n - 1].0 == lit.0 && out[n - 2].1 == "element" {
                out[n - 1].2.push_str(&lit.2);
            } else {
                out.push(e);
                out.push(lit);
            }
        } else {
            out.push(e);
        }
    }
    out
}

fn compare(what: &str, got: &[Ev], want: &[Ev]) -> Res {
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            return Err(Fail::new(what, format!("event {i}: visited {:?}, expected {:?} (after {:?})", got.get(i), want.get(i), i.checked_sub(1).map(|i| &want[i]))));
        }
    }
    Ok(())
}

fn check(mut r: Root, c: &mut Case) -> Res {
    let want = r.expected(false);
    c.nontrivial = want.len() >= 10;
    for e in &want {
        c.label(e.1);
    }
    let mut v = All::default();
    r.visit(&mut v);
    let got = v.out;
    compare("visit", &merged(got.clone()), &want)?;
    let text = r.text();
    let mut v = All::default();
    r.visit_mut(&mut v);
    let got_mut = v.out;
    compare("visit_mut", &merged(got_mut.clone()), &r.expected(true))?;
    // The other methods of these are the trait's own.
    let pays = |evs: &[Ev], kind: &str| -> Vec<String> { evs.iter().filter(|e| e.1 == kind).map(|e| e.2.clone()).collect() };
    for (kind, read, write) in singles() {
        let (a, b) = (read(&r), pays(&got, kind));
        ensure!(a == b, "single", "visit_{kind} alone saw {a:?}, not {b:?}");
        let (a, b) = (write(&mut r), pays(&got_mut, kind));
        ensure!(a == b, "single-mut", "visit_{kind}_mut alone saw {a:?}, not {b:?}");
    }
    let after = r.text();
    ensure!(after == text, "touched", "{text:?} became {after:?} without any change made to it");
    Ok(())
}

fn parsed(s: &mut Src, c: &mut Case, kind: usize, plain: bool) -> Result<Root, Fail> {
    let no = |e: hcl_edit::parser::Error| Fail::new("reject", format!("{e}"));
    Ok(match kind {
        0 => Root::Body(hcl_edit::parser::parse_body(&doc(s, c, false, plain).1.text).map_err(no)?),
        1 => Root::Expr(hcl_edit::parser::parse_expr(&ex(s, c, plain).1.text).map_err(no)?),
        _ => Root::Template(hcl_edit::parser::parse_template(&tpl(s, c, plain).1.text).map_err(no)?),
    })
}

fn body(s: &mut Src, c: &mut Case) -> Res {
    let r = parsed(s, c, 0, false)?;
    check(r, c)
}

fn expr(s: &mut Src, c: &mut Case) -> Res {
    let r = parsed(s, c, 1, false)?;
    check(r, c)
}

fn template(s: &mut Src, c: &mut Case) -> Res {
    let r = parsed(s, c, 2, false)?;
    check(r, c)
}

fn built(s: &mut Src, c: &mut Case) -> Res {
    let kind = s.below(3);
    let mut g = Gen::new(s);
    let r = match kind {
        0 => Root::Body(build::body(&g.body(3))),
        1 => Root::Expr(build::expr(&g.expr())),
        _ => Root::Template(build::template(&g.elements(true, 6))),
    };
    c.input = format!("{:?}", r.tree());
    check(r, c)
}

// --- source order --------------------------------------------------------------------------------

#[derive(Default)]
struct Leaves {
    out: Vec<(&'static str, Option<std::ops::Range<usize>>)>,
}

macro_rules! leaf_spans {
    (leaves { $($lk:ident $lm:ident $lmm:ident $lt:ty,)* } nodes { $($nk:ident $nm:ident $nmm:ident $nt:ty,)* }) => {
        impl Visit for Leaves {
            $(fn $lm(&mut self, node: &$lt) {
                self.out.push((stringify!($lk), span_of(node)));
            })*
        }
    };
}
kinds!(leaf_spans);

trait MaybeSpan {
    fn maybe(&self) -> Option<std::ops::Range<usize>>;
}
impl<T> MaybeSpan for Decorated<T> {
    fn maybe(&self) -> Option<std::ops::Range<usize>> {
        self.span()
    }
}
impl<T> MaybeSpan for Formatted<T> {
    fn maybe(&self) -> Option<std::ops::Range<usize>> {
        self.span()
    }
}
impl<T> MaybeSpan for Spanned<T> {
    fn maybe(&self) -> Option<std::ops::Range<usize>> {
        self.span()
    }
}
impl MaybeSpan for EndifTemplateExpr {
    fn maybe(&self) -> Option<std::ops::Range<usize>> {
        None
    }
}
impl MaybeSpan for EndforTemplateExpr {
    fn maybe(&self) -> Option<std::ops::Range<usize>> {
        None
    }
}
fn span_of<T: MaybeSpan>(t: &T) -> Option<std::ops::Range<usize>> {
    t.maybe()
}

/// Leaves are visited from left to right.
fn order(s: &mut Src, c: &mut Case) -> Res {
    let kind = s.below(3);
    let r = parsed(s, c, kind, false)?;
    let mut v = Leaves::default();
    r.visit(&mut v);
    c.nontrivial = v.out.len() >= 5;
    let mut last = 0;
    for (k, sp) in &v.out {
        if let Some(sp) = sp {
            ensure!(sp.start >= last, "order", "{k} at {sp:?} is visited after something that ends at {last}");
            last = sp.end;
        }
    }
    Ok(())
}

// --- changes -------------------------------------------------------------------------------------

fn turn(t: &str) -> String {
    t.chars().map(|ch| if ch.is_ascii_lowercase() { (((ch as u8 - b'a') + 1) % 26 + b'a') as char } else { ch }).collect()
}

fn next_bin(o: BinaryOperator) -> BinaryOperator {
    use BinaryOperator::*;
    match o {
        Eq => NotEq,
        NotEq => LessEq,
        LessEq => GreaterEq,
        GreaterEq => Less,
        Less => Greater,
        Greater => Plus,
        Plus => Minus,
        Minus => Mul,
        Mul => Div,
        Div => Mod,
        Mod => And,
        And => Or,
        Or => Eq,
    }
}

/// Changes whatever can be changed.
struct Change;

impl VisitMut for Change {
    fn visit_ident_mut(&mut self, node: &mut Decorated<Ident>) {
        let i = Ident::new(turn(node.as_str()));
        *node.value_mut() = i;
    }
    fn visit_bool_mut(&mut self, node: &mut Decorated<bool>) {
        *node.value_mut() ^= true;
    }
    fn visit_u64_mut(&mut self, node: &mut Decorated<u64>) {
        *node.value_mut() = node.wrapping_add(1);
    }
    fn visit_number_mut(&mut self, node: &mut Formatted<Number>) {
        *node.value_mut() = Number::from(7u8);
    }
    fn visit_string_mut(&mut self, node: &mut Decorated<String>) {
        let t = turn(node.value());
        *node.value_mut() = t;
    }
    fn visit_literal_mut(&mut self, node: &mut Spanned<String>) {
        let t = turn(node.value());
        *node.value_mut() = t;
    }
    fn visit_unary_operator_mut(&mut self, node: &mut Spanned<UnaryOperator>) {
        *node.value_mut() = match node.value() {
            UnaryOperator::Neg => UnaryOperator::Not,
            UnaryOperator::Not => UnaryOperator::Neg,
        };
    }
    fn visit_binary_operator_mut(&mut self, node: &mut Decorated<BinaryOperator>) {
        *node.value_mut() = next_bin(*node.value());
    }
    fn visit_endif_template_expr_mut(&mut self, node: &mut EndifTemplateExpr) {
        node.strip = hcl_edit::template::Strip::Both;
    }
    fn visit_endfor_template_expr_mut(&mut self, node: &mut EndforTemplateExpr) {
        node.strip = hcl_edit::template::Strip::Start;
    }
}

fn m_expr(e: &E) -> E {
    let b = |e: &E| Box::new(m_expr(e));
    match e {
        E::Null => E::Null,
        E::Bool(b) => E::Bool(!b),
        E::Num(_) => E::Num(N::U(7)),
        E::Str(s) => E::Str(turn(s)),
        E::Arr(v) => E::Arr(v.iter().map(m_expr).collect()),
        E::Obj(v) => E::Obj(v.iter().map(|(k, e)| (k.clone(), m_expr(e))).collect()),
        E::Tpl(t) => E::Tpl(m_tpl(t)),
        E::Heredoc(h) => E::Heredoc(Box::new(Hd { delim: h.delim.clone(), flush: h.flush, tpl: m_tpl(&h.tpl) })),
        E::Var(v) => E::Var(turn(v)),
        E::Paren(e) => E::Paren(b(e)),
        E::Call(n, a, x) => E::Call(n.iter().map(|n| turn(n)).collect(), a.iter().map(m_expr).collect(), *x),
        E::Cond(c) => E::Cond(Box::new((m_expr(&c.0), m_expr(&c.1), m_expr(&c.2)))),
        E::Un(o, e) => E::Un(if *o == Un::Neg { Un::Not } else { Un::Neg }, b(e)),
        E::Bin(l, o, r) => E::Bin(b(l), reify::binop(next_bin(build::binop(*o))), b(r)),
        E::Trav(e, ops) => E::Trav(
            b(e),
            ops.iter()
                .map(|o| match o {
                    Op::Attr(i) => Op::Attr(turn(i)),
                    Op::Legacy(n) => Op::Legacy(n.wrapping_add(1)),
                    Op::Index(e) => Op::Index(m_expr(e)),
                    Op::AttrSplat => Op::AttrSplat,
                    Op::FullSplat => Op::FullSplat,
                })
                .collect(),
        ),
        E::For(f) => E::For(Box::new(ForE {
            key_var: f.key_var.as_deref().map(turn),
            val_var: turn(&f.val_var),
            coll: m_expr(&f.coll),
            key: f.key.as_ref().map(m_expr),
            val: m_expr(&f.val),
            grouping: f.grouping,
            cond: f.cond.as_ref().map(m_expr),
        })),
    }
}

fn m_tpl(t: &[T]) -> Vec<T> {
    t.iter()
        .map(|t| match t {
            T::Lit(s) => T::Lit(turn(s)),
            T::Interp(e, s) => T::Interp(m_expr(e), *s),
            T::If { cond, then, els, s_if, s_else, .. } => T::If { cond: m_expr(cond), then: m_tpl(then), els: els.as_ref().map(|e| m_tpl(e)), s_if: *s_if, s_else: *s_else, s_end: (true, true) },
            T::For { key, val, coll, body, s_for, .. } => T::For { key: key.as_deref().map(turn), val: turn(val), coll: m_expr(coll), body: m_tpl(body), s_for: *s_for, s_end: (true, false) },
        })
        .collect()
}

fn m_body(b: &[S]) -> Vec<S> {
    b.iter()
        .map(|s| match s {
            S::Attr(k, e) => S::Attr(k.clone(), m_expr(e)),
            S::Block(b) => S::Block(Blk {
                ident: turn(&b.ident),
                labels: b
                    .labels
                    .iter()
                    .map(|l| match l {
                        L::Id(i) => L::Id(turn(i)),
                        L::Str(i) => L::Str(turn(i)),
                    })
                    .collect(),
                body: m_body(&b.body),
                oneline: b.oneline,
            }),
        })
        .collect()
}

/// Every change made arrives in the tree, and nothing else changes.
fn map(s: &mut Src, c: &mut Case) -> Res {
    let kind = s.below(3);
    let mut r = parsed(s, c, kind, false)?;
    let want = match r.tree() {
        Tree::Body(b) => Tree::Body(m_body(&b)),
        Tree::Expr(b) => Tree::Expr(m_expr(&b)),
        Tree::Template(b) => Tree::Template(m_tpl(&b)),
    };
    r.visit_mut(&mut Change);
    let got = r.tree();
    ensure!(got == want, "map", "{got:?}\nexpected {want:?}");
    Ok(())
}

/// Changes one leaf.
struct One {
    k: usize,
    n: usize,
    /// Literals of heredocs are left alone.
    heredoc: bool,
    done: Option<(&'static str, Option<std::ops::Range<usize>>, String)>,
}

impl One {
    fn hit(&mut self) -> bool {
        self.n += 1;
        self.n - 1 == self.k
    }
}

impl VisitMut for One {
    fn visit_ident_mut(&mut self, node: &mut Decorated<Ident>) {
        if self.hit() {
            self.done = Some(("ident", node.span(), "zz".into()));
            *node.value_mut() = Ident::new("zz");
        }
    }
    fn visit_bool_mut(&mut self, node: &mut Decorated<bool>) {
        if self.hit() {
            let b = !node.value();
            self.done = Some(("bool", node.span(), b.to_string()));
            *node.value_mut() = b;
        }
    }
    fn visit_u64_mut(&mut self, node: &mut Decorated<u64>) {
        if self.hit() {
            self.done = Some(("u64", node.span(), "77".into()));
            *node.value_mut() = 77;
        }
    }
    fn visit_number_mut(&mut self, node: &mut Formatted<Number>) {
        if self.hit() {
            self.done = Some(("number", node.span(), "77".into()));
            *node.value_mut() = Number::from(77u8);
        }
    }
    fn visit_string_mut(&mut self, node: &mut Decorated<String>) {
        if self.hit() {
            self.done = Some(("string", node.span(), "\"zz\"".into()));
            *node.value_mut() = "zz".into();
        }
    }
    fn visit_literal_mut(&mut self, node: &mut Spanned<String>) {
        if !self.heredoc && self.hit() {
            self.done = Some(("literal", node.span(), "zz".into()));
            *node.value_mut() = "zz".into();
        }
    }
    fn visit_unary_operator_mut(&mut self, node: &mut Spanned<UnaryOperator>) {
        if self.hit() {
            let (o, t) = match node.value() {
                UnaryOperator::Neg => (UnaryOperator::Not, "!"),
                UnaryOperator::Not => (UnaryOperator::Neg, "-"),
            };
            self.done = Some(("unary_operator", node.span(), t.into()));
            *node.value_mut() = o;
        }
    }
    fn visit_binary_operator_mut(&mut self, node: &mut Decorated<BinaryOperator>) {
        if self.hit() {
            let o = next_bin(*node.value());
            self.done = Some(("binary_operator", node.span(), o.as_str().into()));
            *node.value_mut() = o;
        }
    }
    fn visit_heredoc_template_mut(&mut self, node: &mut HeredocTemplate) {
        let old = std::mem::replace(&mut self.heredoc, true);
        visit_mut::visit_heredoc_template_mut(self, node);
        self.heredoc = old;
    }
    fn visit_string_template_mut(&mut self, node: &mut StringTemplate) {
        let old = std::mem::replace(&mut self.heredoc, false);
        visit_mut::visit_string_template_mut(self, node);
        self.heredoc = old;
    }
}

/// A document whose text is what it prints as.
fn settled(s: &mut Src, c: &mut Case) -> Result<Option<(Root, String)>, Fail> {
    let kind = s.below(3);
    let r = parsed(s, c, kind, true)?;
    let text = r.text();
    let Some(r) = r.reparse(&text) else { return Ok(None) };
    if r.text() != text {
        return Ok(None);
    }
    Ok(Some((r, text)))
}

fn spliced(text: &str, at: &std::ops::Range<usize>, new: &str) -> String {
    format!("{}{new}{}", &text[..at.start], &text[at.end..])
}

/// A change to one leaf replaces its text and leaves the rest of the document alone.
fn one(s: &mut Src, c: &mut Case) -> Res {
    let Some((mut r, text)) = settled(s, c)? else {
        c.discard = true;
        return Ok(());
    };
    let mut count = One { k: usize::MAX, n: 0, heredoc: false, done: None };
    r.clone().visit_mut(&mut count);
    if count.n == 0 {
        c.nontrivial = false;
        return Ok(());
    }
    c.nontrivial = count.n >= 5;
    let mut v = One { k: s.below(count.n), n: 0, heredoc: false, done: None };
    r.visit_mut(&mut v);
    let Some((kind, span, new)) = v.done else {
        return Err(Fail::new("lost", format!("leaf {} of {} not found again", v.k, count.n)));
    };
    c.label(kind);
    let Some(span) = span else { return Err(Fail::new("span", format!("{kind} without span"))) };
    let got = r.text();
    let want = spliced(&text, &span, &new);
    // An operator may need a space to be kept apart from the word before it.
    let same = got == want || (kind.ends_with("operator") && got.replace(' ', "") == want.replace(' ', ""));
    ensure!(same, format!("one-{kind}"), "{kind} at {span:?}\n  of {text:?}\ngives {got:?}\n  not {want:?}");
    Ok(())
}

/// Replaces one expression.
struct Swap {
    k: usize,
    n: usize,
    done: Option<Option<std::ops::Range<usize>>>,
}

impl VisitMut for Swap {
    fn visit_expr_mut(&mut self, node: &mut Expression) {
        self.n += 1;
        if self.n - 1 == self.k {
            self.done = Some(node.span());
            let mut new = Expression::from(Parenthesis::new(Ident::new("zz").into()));
            *new.decor_mut() = node.decor().clone();
            *node = new;
        } else {
            visit_mut::visit_expr_mut(self, node);
        }
    }
}

/// Replacing an expression replaces its text and leaves the rest of the document alone.
fn replace(s: &mut Src, c: &mut Case) -> Res {
    let Some((mut r, text)) = settled(s, c)? else {
        c.discard = true;
        return Ok(());
    };
    let mut count = Swap { k: usize::MAX, n: 0, done: None };
    r.clone().visit_mut(&mut count);
    if count.n == 0 {
        c.nontrivial = false;
        return Ok(());
    }
    c.nontrivial = count.n >= 3;
    let mut v = Swap { k: s.below(count.n), n: 0, done: None };
    r.visit_mut(&mut v);
    let Some(Some(span)) = v.done else {
        return Err(Fail::new("lost", format!("expression {} of {} not found again or without span", v.k, count.n)));
    };
    let got = r.text();
    let want = spliced(&text, &span, "(zz)");
    ensure!(got == want, "replace", "{:?} at {span:?}\n  of {text:?}\ngives {got:?}\n  not {want:?}", &text[span.clone()]);
    Ok(())
}
