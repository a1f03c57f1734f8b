//! Generators for the reference tree. Everything generated is valid HCL native syntax.

use crate::dyns::Node;
use crate::model::*;
use crate::src::Src;

pub struct Gen<'a> {
    pub s: &'a mut Src,
    /// Remaining node budget.
    pub fuel: i64,
    pub heredocs: bool,
    /// Only generate expressions whose printed form is the same in the data model (no heredoc in
    /// odd places, and so on) if false.
    pub exotic: bool,
    /// Avoid flush heredocs whose indentation is lost on printing (a known finding).
    pub plain_flush: bool,
    /// Generate plain names only.
    pub simple_names: bool,
    /// Generate templates that may be written without quotes.
    pub bare: bool,
    /// The lines of heredocs end with CRLF.
    pub crlf: bool,
}

pub const NAMES: [&str; 22] = [
    "a", "b", "c", "foo", "bar", "x", "item", "format", "for_each", "iffy", "inner", "null_", "true-1", "in_x", "else_", "a-b", "_", "_x1",
    "été", "日本", "endif_", "forx",
];

pub const KEYNAMES: [&str; 6] = ["for", "if", "in", "null", "true", "else"];

pub fn strip(s: &mut Src) -> Strip {
    if s.chance(1, 3) {
        match s.below(3) {
            0 => (true, false),
            1 => (false, true),
            _ => (true, true),
        }
    } else {
        (false, false)
    }
}

pub fn ch(s: &mut Src) -> char {
    const SPECIAL: [char; 30] = [
        '"', '\\', '$', '%', '{', '}', '~', '\n', '\t', '\r', '#', '/', '*', '\'', '<', '=', ' ', ' ', '\u{8}', '\u{c}', '\u{0}', '\u{1f}', '\u{7f}',
        '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{301}', '\u{10ffff}', '\u{e000}',
    ];
    const UNI: [char; 10] = ['é', 'ß', '日', '本', '🎈', 'Ω', 'ж', 'ﬀ', '𝒳', '\u{200d}'];
    match s.weighted(&[8, 5, 2, 1]) {
        0 => (b'a' + s.draw(26) as u8) as char,
        1 => *s.pick(&SPECIAL),
        2 => *s.pick(&UNI),
        _ => char::from_u32(s.draw(0x11_0000) as u32).unwrap_or('\u{fffd}'),
    }
}

/// Arbitrary text, with a bias towards template markers and escapes.
pub fn text(s: &mut Src, max: usize) -> String {
    const FRAG: [&str; 20] = [
        "${", "%{", "$${", "%%{", "$$${", "%%%{", "$", "%", "{", "}", "$$", "%%", "\\n", "\\u0041", "\"", "${a}", "%{ if x }", "\n", "EOT", "~}",
    ];
    let mut out = String::new();
    let mut n = 0;
    while s.more(n, 4, max) {
        if s.chance(1, 5) {
            out.push_str(s.pick(&FRAG));
        } else {
            out.push(ch(s));
        }
        n += 1;
    }
    out
}

/// Text that may stand in a heredoc: no carriage returns (they are part of line endings there).
pub fn heredoc_line(s: &mut Src) -> String {
    text(s, 10).chars().filter(|c| *c != '\n' && *c != '\r').collect()
}

/// `$` before `${` (and `%` before `%{`) would read as an escaped marker, there is no way to write
/// that in a bare template.
pub fn clash(lit: &str, next: &T) -> bool {
    match next {
        T::Lit(_) => false,
        T::Interp(..) => lit.ends_with('$'),
        T::If { .. } | T::For { .. } => lit.ends_with('%'),
    }
}

/// Append to a template. `apart`: keep adjacent elements apart that could not be told from each
/// other outside of quotes.
fn push_t(ts: &mut Vec<T>, t: T, apart: bool) {
    if matches!(&t, T::Lit(l) if l.is_empty()) {
        return;
    }
    if let Some(T::Lit(l)) = ts.last() {
        if apart && clash(l, &t) {
            ts.push(T::Lit(" ".into()));
        }
    }
    ts.push(t);
}

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src) -> Gen<'a> {
        let fuel = s.size as i64;
        Gen { s, fuel, heredocs: true, exotic: true, plain_flush: false, simple_names: false, bare: false, crlf: false }
    }

    pub fn ident(&mut self) -> String {
        // Many different ones for large collections.
        if self.s.big > 0 && self.s.bool() {
            return format!("n{}", self.s.draw(500));
        }
        if !self.simple_names && self.s.chance(1, 8) {
            // A fresh identifier.
            const START: [char; 10] = ['q', 'Z', '_', 'é', '日', 'ж', 'Ω', '𝒳', 'ﬀ', 'w'];
            const CONT: [char; 10] = ['1', '-', '_', 'k', 'é', '\u{301}', '日', '9', '٣', 'Q'];
            let mut out = String::new();
            out.push(*self.s.pick(&START));
            let mut n = 0;
            while self.s.more(n, 3, 12) {
                out.push(*self.s.pick(&CONT));
                n += 1;
            }
            return out;
        }
        (*self.s.pick(&NAMES)).to_string()
    }

    /// An identifier usable where keywords are no problem (attribute keys, labels, object keys).
    pub fn key_ident(&mut self) -> String {
        if self.s.chance(1, 10) {
            (*self.s.pick(&KEYNAMES)).to_string()
        } else {
            self.ident()
        }
    }

    pub fn uint(&mut self) -> u64 {
        match self.s.weighted(&[6, 3, 2, 1]) {
            0 => self.s.draw(12),
            1 => self.s.draw(100_000),
            2 => {
                const EDGE: [u64; 12] = [
                    9_007_199_254_740_991,
                    9_007_199_254_740_992,
                    9_007_199_254_740_993,
                    i64::MAX as u64 - 1,
                    i64::MAX as u64,
                    i64::MAX as u64 + 1,
                    i64::MAX as u64 + 2,
                    u64::MAX - 1,
                    u64::MAX,
                    u32::MAX as u64,
                    u32::MAX as u64 + 1,
                    1_000_000_000_000_000_000,
                ];
                *self.s.pick(&EDGE)
            }
            _ => self.s.draw(0),
        }
    }

    pub fn float(&mut self) -> f64 {
        match self.s.weighted(&[5, 3, 3, 1]) {
            0 => self.s.draw(1000) as f64 / 8.0,
            1 => (self.s.draw(1_000_000) as f64) / 1000.0,
            2 => {
                const EDGE: [f64; 12] = [0.1, 1e300, 1e-300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e16, 1e21, 9_223_372_036_854_775_808.0, 18_446_744_073_709_551_616.0, 1.5e19, 1e-7];
                *self.s.pick(&EDGE)
            }
            _ => {
                let f = f64::from_bits(self.s.draw(0) & 0x7fff_ffff_ffff_ffff);
                if f.is_finite() {
                    f
                } else {
                    0.25
                }
            }
        }
    }

    pub fn num(&mut self) -> N {
        let n = if self.s.chance(1, 3) { N::f(self.float()) } else { N::U(self.uint()) };
        if self.s.chance(1, 4) {
            match n {
                N::U(0) => N::U(0),
                N::U(u) => N::from_int(-i128::from(u)).unwrap_or(N::f(-(u as f64))),
                N::F(f) => N::f(-f),
                n => n,
            }
        } else {
            n
        }
    }

    fn take(&mut self) -> bool {
        self.fuel -= 1;
        self.fuel > 0
    }

    pub fn string(&mut self) -> String {
        text(self.s, 12)
    }

    pub fn leaf(&mut self) -> E {
        match self.s.weighted(&[4, 2, 2, 3, 1, 1]) {
            0 => E::Var(self.ident()),
            1 => E::Num(self.num()),
            2 => E::Bool(self.s.bool()),
            3 => E::Str(self.string()),
            4 => E::Null,
            _ => E::Arr(vec![]),
        }
    }

    /// Any expression.
    pub fn expr(&mut self) -> E {
        let n = self.s.deep();
        if n > 0 {
            let mut e = self.expr();
            for _ in 0..n {
                e = self.wrapped(e);
            }
            return e;
        }
        if self.s.chance(1, 8) && self.take() {
            let c = self.bin(0);
            let t = self.expr();
            let f = self.expr();
            return E::Cond(Box::new((c, t, f)));
        }
        self.bin(0)
    }

    /// A term around it.
    fn wrapped(&mut self, e: E) -> E {
        match self.s.below(9) {
            0 => E::Paren(Box::new(e)),
            1 => E::Arr(vec![e]),
            2 => E::Obj(vec![(K::Id("k".into()), e)]),
            3 => E::Tpl(vec![T::Interp(e, strip(self.s))]),
            4 => E::Call(vec!["f".into()], vec![e], false),
            5 => E::Trav(Box::new(E::Paren(Box::new(e))), vec![Op::Attr("a".into())]),
            6 => E::Trav(Box::new(E::Var("a".into())), vec![Op::Index(e)]),
            7 => E::Un(Un::Not, Box::new(E::Paren(Box::new(e)))),
            _ => E::Arr(vec![E::Null, e]),
        }
    }

    /// An operation whose operators all bind at least as strongly as `min`.
    fn bin(&mut self, min: u8) -> E {
        if self.s.chance(1, 6) && self.take() {
            let ops: Vec<Bin> = BINS.iter().copied().filter(|b| b.prec() >= min).collect();
            if !ops.is_empty() {
                let op = *self.s.pick(&ops);
                let l = self.bin(op.prec());
                let r = self.bin(op.prec() + 1);
                return E::Bin(Box::new(l), op, Box::new(r));
            }
        }
        self.unary()
    }

    fn unary(&mut self) -> E {
        if self.s.chance(1, 10) && self.take() {
            let op = if self.s.bool() { Un::Neg } else { Un::Not };
            let inner = self.unary();
            // `-1` is a negative number.
            if op == Un::Neg && matches!(&inner, E::Num(n) if !n.is_neg()) {
                return E::Un(Un::Not, Box::new(inner));
            }
            return E::Un(op, Box::new(inner));
        }
        self.term()
    }

    pub fn term(&mut self) -> E {
        if self.fuel <= 0 || self.s.chance(1, 3) {
            return self.leaf();
        }
        self.fuel -= 1;
        match self.s.weighted(&[4, 4, 3, 3, 3, 3, 4]) {
            0 => E::Arr(self.exprs(5)),
            1 => self.object(),
            2 => E::Tpl(self.template()),
            3 => E::Paren(Box::new(self.expr())),
            4 => self.call(),
            5 => self.for_expr(),
            _ => self.traversal(),
        }
    }

    /// An expression of that kind; numbers, names and texts are literals.
    pub fn node(&mut self, n: Node) -> E {
        match n {
            Node::Expr => self.value(),
            Node::Variable => E::Var(self.ident()),
            Node::Traversal => self.traversal(),
            Node::FuncCall => self.call(),
            Node::Conditional => E::Cond(Box::new((self.bin(0), self.expr(), self.expr()))),
            Node::Operation => {
                let n = if self.s.bool() { Node::Unary } else { Node::Binary };
                self.node(n)
            }
            Node::Unary => E::Un(Un::Not, Box::new(self.unary())),
            Node::Binary => {
                let op = *self.s.pick(&BINS);
                E::Bin(Box::new(self.bin(op.prec())), op, Box::new(self.bin(op.prec() + 1)))
            }
            Node::For => self.for_expr(),
            Node::Template => {
                if self.s.chance(1, 3) {
                    self.node(Node::Heredoc)
                } else {
                    E::Tpl(self.template())
                }
            }
            Node::Heredoc => E::Heredoc(Box::new(self.heredoc())),
            Node::Number => E::Num(self.num()),
            Node::Ident => E::Str(self.key_ident()),
            Node::Text => E::Str(crate::build::raw_tpl(&self.template())),
        }
    }

    fn exprs(&mut self, max: usize) -> Vec<E> {
        let mut v = Vec::new();
        while self.s.more(v.len(), 2, max) {
            v.push(self.value());
        }
        v
    }

    /// An expression in a place where a line break may follow, so heredocs are possible.
    pub fn value(&mut self) -> E {
        if self.heredocs && self.s.chance(1, 12) && self.take() {
            return E::Heredoc(Box::new(self.heredoc()));
        }
        self.expr()
    }

    fn object(&mut self) -> E {
        let mut v: Vec<(K, E)> = Vec::new();
        while self.s.more(v.len(), 2, 5) {
            let k = match self.s.weighted(&[6, 3, 1, 1, 1, 1, 1]) {
                0 => K::Id(self.obj_key_ident(v.is_empty())),
                1 => K::Ex(E::Str(self.string())),
                2 => K::Ex(E::Num(self.num())),
                3 => K::Ex(E::Paren(Box::new(self.expr()))),
                4 => K::Ex(self.traversal()),
                5 => K::Ex(self.call()),
                _ => K::Ex(E::Tpl(self.template())),
            };
            if v.iter().any(|(o, _)| norm_key(o) == norm_key(&k)) {
                continue;
            }
            let e = self.value();
            v.push((k, e));
        }
        E::Obj(v)
    }

    fn obj_key_ident(&mut self, first: bool) -> String {
        let k = self.key_ident();
        if matches!(k.as_str(), "null" | "true" | "false") || (first && k == "for") {
            return "k".into();
        }
        k
    }

    pub fn call(&mut self) -> E {
        let mut name = vec![self.ident()];
        while self.s.chance(1, 8) && name.len() < 4 {
            name.push(self.ident());
        }
        if self.s.big > 40 && self.s.chance(1, 20) {
            for _ in 0..self.s.below(20) {
                name.push(self.ident());
            }
        }
        let args = self.exprs(4);
        let expand = !args.is_empty() && self.s.chance(1, 5);
        let expand = expand && !matches!(args.last(), Some(E::Heredoc(_)));
        E::Call(name, args, expand)
    }

    fn for_expr(&mut self) -> E {
        let key_var = self.s.bool().then(|| self.ident());
        let val_var = self.ident();
        let coll = self.expr();
        let obj = self.s.bool();
        let key = obj.then(|| self.expr());
        let val = self.expr();
        let grouping = obj && self.s.chance(1, 3);
        let cond = self.s.chance(1, 3).then(|| self.expr());
        E::For(Box::new(ForE { key_var, val_var, coll, key, val, grouping, cond }))
    }

    fn traversal(&mut self) -> E {
        let base = match self.s.weighted(&[6, 2, 1, 1, 1, 1, 1]) {
            0 => E::Var(self.ident()),
            1 => self.call(),
            2 => E::Paren(Box::new(self.expr())),
            3 => E::Arr(self.exprs(3)),
            4 => self.object(),
            5 => self.for_expr(),
            _ => E::Str(self.string()),
        };
        let mut ops = vec![self.trav_op()];
        while self.s.more(ops.len(), 1, 5) {
            ops.push(self.trav_op());
        }
        E::Trav(Box::new(base), ops)
    }

    fn trav_op(&mut self) -> Op {
        match self.s.weighted(&[4, 3, 1, 1, 1]) {
            0 => Op::Attr(self.key_ident()),
            1 => Op::Index(self.expr()),
            2 => Op::Legacy(if self.s.bool() { self.s.draw(20) } else { self.uint() }),
            3 => Op::AttrSplat,
            _ => Op::FullSplat,
        }
    }

    /// Elements of a quoted template, at least one of which is no literal.
    pub fn template(&mut self) -> Vec<T> {
        let mut ts = self.elements(false, 4);
        if ts.iter().all(|t| matches!(t, T::Lit(_))) {
            let t = T::Interp(self.expr(), strip(self.s));
            push_t(&mut ts, t, self.bare);
        }
        merge(&ts)
    }

    /// Elements of a template. `lines`: heredoc style literals.
    pub fn elements(&mut self, lines: bool, max: usize) -> Vec<T> {
        let mut ts: Vec<T> = Vec::new();
        let mut n = 0;
        while self.s.more(n, 2, max) {
            n += 1;
            let t = match self.s.weighted(&[4, 3, 1, 1]) {
                1 if self.take() => T::Interp(self.expr(), strip(self.s)),
                2 if self.take() => {
                    let cond = self.expr();
                    let then = self.dir_body(lines, max - 1);
                    let els = self.s.chance(1, 2).then(|| self.dir_body(lines, max - 1));
                    let s_else = if els.is_some() { strip(self.s) } else { (false, false) };
                    T::If { cond, then, els, s_if: strip(self.s), s_else, s_end: strip(self.s) }
                }
                3 if self.take() => {
                    let key = self.s.bool().then(|| self.ident());
                    let val = self.ident();
                    let coll = self.expr();
                    let body = self.dir_body(lines, max - 1);
                    T::For { key, val, coll, body, s_for: strip(self.s), s_end: strip(self.s) }
                }
                _ => T::Lit(if lines { self.lines() } else { self.string() }),
            };
            push_t(&mut ts, t, lines || self.bare);
        }
        merge(&ts)
    }

    /// The body of a directive, which is followed by another directive tag.
    fn dir_body(&mut self, lines: bool, max: usize) -> Vec<T> {
        let mut ts = self.elements(lines, max);
        if (lines || self.bare) && matches!(ts.last(), Some(T::Lit(l)) if l.ends_with('%')) {
            ts.push(T::Lit(".".into()));
        }
        merge(&ts)
    }

    fn lines(&mut self) -> String {
        let mut out = String::new();
        let mut n = 0;
        while self.s.more(n, 2, 5) {
            n += 1;
            if self.s.chance(1, 2) {
                let k = self.s.below(5);
                out.push_str(&" ".repeat(k));
            }
            out.push_str(&heredoc_line(self.s));
            if self.s.chance(2, 3) {
                out.push('\n');
            }
        }
        out
    }

    pub fn heredoc(&mut self) -> Hd {
        let delim = if self.s.chance(1, 2) { "EOT".to_string() } else { self.ident() };
        let flush = self.s.chance(1, 2);
        let mut tpl = self.elements(true, 4);
        if !tpl.is_empty() {
            tpl.push(T::Lit("\n".into()));
            // Lines which only start like the delimiter.
            for first in [false, true] {
                if self.s.chance(1, 6) {
                    let c = *self.s.pick(&['_', '-', '0', 'x', 'é', '\u{301}']);
                    let line = T::Lit(format!("{delim}{c}{}\n", if self.s.bool() { "" } else { " y" }));
                    tpl.insert(if first { 0 } else { tpl.len() }, line);
                }
            }
            tpl = merge(&tpl);
        }
        let tpl = guard_delim(tpl, &delim);
        let tpl = if flush && self.s.chance(2, 3) { indent_all(&tpl, self.s.range(1, 4)) } else { tpl };
        let tpl = if flush && self.plain_flush { plain_indent(&tpl) } else { tpl };
        let mut h = Hd { delim, flush, tpl };
        if has_delim_line(&h.tpl, &h.delim) {
            h.tpl = vec![T::Lit("x\n".into())];
        }
        if self.crlf {
            h.tpl = map_lits(&h.tpl, &|l| l.replace("\r\n", "\n").replace('\n', "\r\n"));
        }
        h
    }

    pub fn label(&mut self) -> L {
        if self.s.chance(1, 3) {
            L::Str(self.string())
        } else {
            L::Id(self.key_ident())
        }
    }

    pub fn body(&mut self, depth: usize) -> Vec<S> {
        let mut out: Vec<S> = Vec::new();
        let mut keys: Vec<String> = Vec::new();
        while self.s.more(out.len(), 3, 8) {
            if depth > 0 && self.s.chance(1, 3) {
                out.push(S::Block(self.block(depth)));
            } else {
                let k = self.key_ident();
                if keys.contains(&k) {
                    continue;
                }
                keys.push(k.clone());
                out.push(S::Attr(k, self.value()));
            }
        }
        out
    }

    pub fn block(&mut self, depth: usize) -> Blk {
        self.fuel -= 1;
        let ident = self.key_ident();
        let mut labels = Vec::new();
        while self.s.more(labels.len(), 1, 4) {
            labels.push(self.label());
        }
        if self.s.chance(1, 4) {
            let body = if self.s.bool() { vec![S::Attr(self.key_ident(), self.expr())] } else { vec![] };
            return Blk { ident, labels, body, oneline: true };
        }
        let body = self.body(depth - 1);
        let mut b = Blk { ident, labels, body, oneline: false };
        for _ in 0..self.s.deep() {
            let labels = if self.s.bool() { vec![self.label()] } else { vec![] };
            b = Blk { ident: self.key_ident(), labels, body: vec![S::Block(b)], oneline: false };
        }
        b
    }
}

/// Rewrite the literals of a template, including those within its directives.
pub fn map_lits(ts: &[T], f: &dyn Fn(&str) -> String) -> Vec<T> {
    ts.iter()
        .map(|t| match t {
            T::Lit(s) => T::Lit(f(s)),
            T::Interp(..) => t.clone(),
            T::If { cond, then, els, s_if, s_else, s_end } => T::If {
                cond: cond.clone(),
                then: map_lits(then, f),
                els: els.as_ref().map(|e| map_lits(e, f)),
                s_if: *s_if,
                s_else: *s_else,
                s_end: *s_end,
            },
            T::For { key, val, coll, body, s_for, s_end } => {
                T::For { key: key.clone(), val: val.clone(), coll: coll.clone(), body: map_lits(body, f), s_for: *s_for, s_end: *s_end }
            }
        })
        .collect()
}

/// True if the line starts with the delimiter, unless that is just the start of a longer word.
fn ends_heredoc(line: &str, delim: &str) -> bool {
    let word = |c: char| c.is_ascii_alphanumeric() || matches!(c, '_' | '-' | 'é' | '\u{301}');
    line.trim_start().strip_prefix(delim).is_some_and(|l| !l.starts_with(word))
}

/// True if some line of the template's literal text could be taken for the end of the heredoc.
pub fn has_delim_line(ts: &[T], delim: &str) -> bool {
    fn go(ts: &[T], delim: &str, found: &mut bool) {
        for t in ts {
            match t {
                T::Lit(s) => {
                    for l in s.split('\n') {
                        if ends_heredoc(l, delim) {
                            *found = true;
                        }
                    }
                }
                T::Interp(..) => {}
                T::If { then, els, .. } => {
                    go(then, delim, found);
                    if let Some(e) = els {
                        go(e, delim, found);
                    }
                }
                T::For { body, .. } => go(body, delim, found),
            }
        }
    }
    let mut f = false;
    go(ts, delim, &mut f);
    f
}

fn guard_delim(ts: Vec<T>, delim: &str) -> Vec<T> {
    if has_delim_line(&ts, delim) {
        // Break the delimiter up rather than throwing the whole heredoc away.
        fn go(ts: Vec<T>, delim: &str) -> Vec<T> {
            ts.into_iter()
                .map(|t| match t {
                    T::Lit(s) => T::Lit(
                        s.split('\n')
                            .map(|l| if ends_heredoc(l, delim) { format!(".{l}") } else { l.to_string() })
                            .collect::<Vec<_>>()
                            .join("\n"),
                    ),
                    T::If { cond, then, els, s_if, s_else, s_end } => {
                        T::If { cond, then: go(then, delim), els: els.map(|e| go(e, delim)), s_if, s_else, s_end }
                    }
                    T::For { key, val, coll, body, s_for, s_end } => T::For { key, val, coll, body: go(body, delim), s_for, s_end },
                    t => t,
                })
                .collect()
        }
        return go(ts, delim);
    }
    ts
}

/// Indent every line that is not empty by `n` spaces.
pub fn indent_all(ts: &[T], n: usize) -> Vec<T> {
    fn text(s: &str, n: usize, start: &mut bool) -> String {
        let mut out = String::new();
        for c in s.chars() {
            if *start && c != '\n' {
                out.push_str(&" ".repeat(n));
            }
            out.push(c);
            *start = c == '\n';
        }
        out
    }
    fn tag(out: &mut Vec<T>, n: usize, start: &mut bool) {
        if *start {
            out.push(T::Lit(" ".repeat(n)));
            *start = false;
        }
    }
    fn go(ts: &[T], n: usize, start: &mut bool) -> Vec<T> {
        let mut out = Vec::new();
        for t in ts {
            match t {
                T::Lit(s) => out.push(T::Lit(text(s, n, start))),
                T::Interp(e, s) => {
                    tag(&mut out, n, start);
                    out.push(T::Interp(e.clone(), *s));
                }
                T::If { cond, then, els, s_if, s_else, s_end } => {
                    tag(&mut out, n, start);
                    let mut a = go(then, n, start);
                    tag(&mut a, n, start);
                    let b = els.as_ref().map(|e| {
                        let mut b = go(e, n, start);
                        tag(&mut b, n, start);
                        b
                    });
                    out.push(T::If { cond: cond.clone(), then: a, els: b, s_if: *s_if, s_else: *s_else, s_end: *s_end });
                }
                T::For { key, val, coll, body, s_for, s_end } => {
                    tag(&mut out, n, start);
                    let mut b = go(body, n, start);
                    tag(&mut b, n, start);
                    out.push(T::For { key: key.clone(), val: val.clone(), coll: coll.clone(), body: b, s_for: *s_for, s_end: *s_end });
                }
            }
        }
        out
    }
    let mut start = true;
    merge(&go(ts, n, &mut start))
}

/// Make the indentation of a flush heredoc consist of spaces, and no line consist of exactly the
/// common indentation.
pub fn plain_indent(ts: &[T]) -> Vec<T> {
    fn map(ts: &[T], start: &mut bool, f: &mut dyn FnMut(&str, bool) -> String) -> Vec<T> {
        ts.iter()
            .map(|t| match t {
                T::Lit(s) => {
                    let mut out = String::new();
                    for l in s.split_inclusive('\n') {
                        out.push_str(&f(l, *start));
                        *start = l.ends_with('\n');
                    }
                    T::Lit(out)
                }
                T::Interp(..) => {
                    *start = false;
                    t.clone()
                }
                T::If { cond, then, els, s_if, s_else, s_end } => {
                    *start = false;
                    let then = map(then, start, f);
                    *start = false;
                    let els = els.as_ref().map(|e| map(e, start, f));
                    *start = false;
                    T::If { cond: cond.clone(), then, els, s_if: *s_if, s_else: *s_else, s_end: *s_end }
                }
                T::For { key, val, coll, body, s_for, s_end } => {
                    *start = false;
                    let body = map(body, start, f);
                    *start = false;
                    T::For { key: key.clone(), val: val.clone(), coll: coll.clone(), body, s_for: *s_for, s_end: *s_end }
                }
            })
            .collect()
    }
    let ts = map(ts, &mut true, &mut |l, start| {
        if !start {
            return l.to_string();
        }
        let n = l.len() - l.trim_start_matches(|c: char| c.is_whitespace() && c != '\n').len();
        format!("{}{}", l[..n].chars().map(|c| if c == ' ' { ' ' } else { '.' }).collect::<String>(), &l[n..])
    });
    let n = common_indent(&ts);
    if n == 0 {
        return ts;
    }
    map(&ts, &mut true, &mut |l, start| if start && *l == format!("{}\n", " ".repeat(n)) { format!("{}.\n", " ".repeat(n)) } else { l.to_string() })
}
