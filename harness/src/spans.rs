//! Collects the spans of a parsed tree with a visitor that mirrors the default traversal.

use hcl_edit::expr::*;
use hcl_edit::structure::*;
use hcl_edit::template::*;
use hcl_edit::visit::*;
use hcl_edit::{Decorated, Formatted, Ident, Number, Span, Spanned};

#[derive(Clone, Debug)]
pub struct Node {
    pub kind: &'static str,
    pub span: Option<(usize, usize)>,
    pub parent: Option<usize>,
}

#[derive(Default)]
pub struct Spans {
    pub nodes: Vec<Node>,
    stack: Vec<usize>,
}

impl Spans {
    fn enter(&mut self, kind: &'static str, span: Option<std::ops::Range<usize>>, f: impl FnOnce(&mut Self)) {
        let id = self.nodes.len();
        self.nodes.push(Node { kind, span: span.map(|r| (r.start, r.end)), parent: self.stack.last().copied() });
        self.stack.push(id);
        f(self);
        self.stack.pop();
    }
    fn leaf(&mut self, kind: &'static str, span: Option<std::ops::Range<usize>>) {
        self.enter(kind, span, |_| {});
    }
}

pub fn expr_kind(e: &Expression) -> &'static str {
    match e {
        Expression::Null(_) => "null",
        Expression::Bool(_) => "bool",
        Expression::Number(_) => "number",
        Expression::String(_) => "string",
        Expression::Array(_) => "array",
        Expression::Object(_) => "object",
        Expression::StringTemplate(_) => "template",
        Expression::HeredocTemplate(_) => "heredoc",
        Expression::Parenthesis(_) => "paren",
        Expression::Variable(_) => "variable",
        Expression::ForExpr(_) => "for",
        Expression::Conditional(_) => "conditional",
        Expression::FuncCall(_) => "call",
        Expression::UnaryOp(_) => "unary",
        Expression::BinaryOp(_) => "binary",
        Expression::Traversal(_) => "traversal",
    }
}

impl Visit for Spans {
    fn visit_ident(&mut self, node: &Decorated<Ident>) {
        self.leaf("ident", node.span());
    }
    fn visit_u64(&mut self, node: &Decorated<u64>) {
        self.leaf("legacy-index", node.span());
    }
    fn visit_splat(&mut self, node: &Decorated<Splat>) {
        self.leaf("splat", node.span());
    }
    fn visit_literal(&mut self, node: &Spanned<String>) {
        self.leaf("literal", node.span());
    }
    fn visit_unary_operator(&mut self, node: &Spanned<UnaryOperator>) {
        self.leaf("unary-operator", node.span());
    }
    fn visit_binary_operator(&mut self, node: &Decorated<BinaryOperator>) {
        self.leaf("operator", node.span());
    }
    fn visit_null(&mut self, node: &Decorated<Null>) {
        self.leaf("scalar", node.span());
    }
    fn visit_bool(&mut self, node: &Decorated<bool>) {
        self.leaf("scalar", node.span());
    }
    fn visit_number(&mut self, node: &Formatted<Number>) {
        self.leaf("scalar", node.span());
    }
    fn visit_string(&mut self, node: &Decorated<String>) {
        self.leaf("scalar", node.span());
    }
    fn visit_attr(&mut self, node: &Attribute) {
        self.enter("attribute", node.span(), |v| visit_attr(v, node));
    }
    fn visit_block(&mut self, node: &Block) {
        self.enter("block", node.span(), |v| visit_block(v, node));
    }
    fn visit_block_label(&mut self, node: &BlockLabel) {
        match node {
            BlockLabel::Ident(_) => visit_block_label(self, node),
            BlockLabel::String(s) => self.leaf("string-label", s.span()),
        }
    }
    fn visit_expr(&mut self, node: &Expression) {
        self.enter(expr_kind(node), node.span(), |v| {
            if !matches!(node, Expression::Variable(_)) {
                visit_expr(v, node);
            }
        });
    }
    fn visit_traversal(&mut self, node: &Traversal) {
        self.visit_expr(&node.expr);
        for o in &node.operators {
            self.enter("traversal-operator", o.span(), |v| v.visit_traversal_operator(o));
        }
    }
    fn visit_interpolation(&mut self, node: &Interpolation) {
        self.enter("interpolation", node.span(), |v| visit_interpolation(v, node));
    }
    fn visit_directive(&mut self, node: &Directive) {
        self.enter("directive", node.span(), |v| visit_directive(v, node));
    }
}

/// Spans lie inside of the text on character boundaries, in their parent's, and siblings are in
/// source order without overlapping.
pub fn check(nodes: &[Node], text: &str) -> Result<(), String> {
    let mut last_end: Vec<usize> = vec![0; nodes.len()];
    let mut top_end = 0;
    for (i, n) in nodes.iter().enumerate() {
        let Some((a, b)) = n.span else { return Err(format!("{} without span", n.kind)) };
        if a > b || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
            return Err(format!("{} {a}..{b} not within the text", n.kind));
        }
        let prev = match n.parent {
            Some(p) => {
                let (pa, pb) = nodes[p].span.unwrap();
                if a < pa || b > pb {
                    return Err(format!("{} {a}..{b} not within its parent {} {pa}..{pb}", n.kind, nodes[p].kind));
                }
                &mut last_end[p]
            }
            None => &mut top_end,
        };
        if a < *prev {
            let parent = n.parent.map_or("document", |p| nodes[p].kind);
            return Err(format!("{} {a}..{b} overlaps its predecessor in {parent}, which ends at {prev}", n.kind));
        }
        *prev = b;
        last_end[i] = a;
    }
    Ok(())
}
