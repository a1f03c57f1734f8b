//! The reference syntax tree. It knows nothing of the crates under test: generators build it,
//! `render` writes it as source text, `reify` reads the parsed trees back into it, `build` builds
//! documents from it through the public constructors and `refeval` evaluates it.

pub type Strip = (bool, bool);

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    U(u64),
    /// Always negative.
    I(i64),
    /// Finite and not representable as one of the above.
    F(f64),
}

impl N {
    pub fn f(v: f64) -> N {
        if v.fract() == 0.0 {
            if v >= 0.0 && v < 18_446_744_073_709_551_616.0 {
                return N::U(v as u64);
            }
            if v < 0.0 && v >= -9_223_372_036_854_775_808.0 {
                return N::I(v as i64);
            }
        }
        N::F(v)
    }
    pub fn is_neg(&self) -> bool {
        match self {
            N::U(_) => false,
            N::I(_) => true,
            N::F(f) => *f < 0.0,
        }
    }
    pub fn to_f64(&self) -> f64 {
        match self {
            N::U(u) => *u as f64,
            N::I(i) => *i as f64,
            N::F(f) => *f,
        }
    }
    pub fn int(&self) -> Option<i128> {
        match self {
            N::U(u) => Some(i128::from(*u)),
            N::I(i) => Some(i128::from(*i)),
            N::F(_) => None,
        }
    }
    pub fn from_int(v: i128) -> Option<N> {
        if v >= 0 {
            u64::try_from(v).ok().map(N::U)
        } else {
            i64::try_from(v).ok().map(N::I)
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Un {
    Neg,
    Not,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Or,
    And,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    Add,
    Sub,
    Mul,
    Div,
    Mod,
}

pub const BINS: [Bin; 13] = [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div, Bin::Mod, Bin::Eq, Bin::Ne, Bin::Lt, Bin::Le, Bin::Gt, Bin::Ge, Bin::And, Bin::Or];

impl Bin {
    pub fn sym(self) -> &'static str {
        match self {
            Bin::Or => "||",
            Bin::And => "&&",
            Bin::Eq => "==",
            Bin::Ne => "!=",
            Bin::Lt => "<",
            Bin::Le => "<=",
            Bin::Gt => ">",
            Bin::Ge => ">=",
            Bin::Add => "+",
            Bin::Sub => "-",
            Bin::Mul => "*",
            Bin::Div => "/",
            Bin::Mod => "%",
        }
    }
    pub fn prec(self) -> u8 {
        match self {
            Bin::Or => 1,
            Bin::And => 2,
            Bin::Eq | Bin::Ne => 3,
            Bin::Lt | Bin::Le | Bin::Gt | Bin::Ge => 4,
            Bin::Add | Bin::Sub => 5,
            Bin::Mul | Bin::Div | Bin::Mod => 6,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Id(String),
    Ex(E),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Attr(String),
    Legacy(u64),
    Index(E),
    AttrSplat,
    FullSplat,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ForE {
    pub key_var: Option<String>,
    pub val_var: String,
    pub coll: E,
    /// Present in object for expressions.
    pub key: Option<E>,
    pub val: E,
    pub grouping: bool,
    pub cond: Option<E>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Lit(String),
    Interp(E, Strip),
    If { cond: E, then: Vec<T>, els: Option<Vec<T>>, s_if: Strip, s_else: Strip, s_end: Strip },
    For { key: Option<String>, val: String, coll: E, body: Vec<T>, s_for: Strip, s_end: Strip },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Hd {
    pub delim: String,
    /// `<<-`
    pub flush: bool,
    /// The text as written. `dedented` gives what it means.
    pub tpl: Vec<T>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Null,
    Bool(bool),
    Num(N),
    Str(String),
    Arr(Vec<E>),
    Obj(Vec<(K, E)>),
    Tpl(Vec<T>),
    Heredoc(Box<Hd>),
    Var(String),
    Paren(Box<E>),
    Call(Vec<String>, Vec<E>, bool),
    Cond(Box<(E, E, E)>),
    Un(Un, Box<E>),
    Bin(Box<E>, Bin, Box<E>),
    For(Box<ForE>),
    Trav(Box<E>, Vec<Op>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum L {
    Id(String),
    Str(String),
}

impl L {
    pub fn text(&self) -> &str {
        match self {
            L::Id(s) | L::Str(s) => s,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Blk {
    pub ident: String,
    pub labels: Vec<L>,
    pub body: Vec<S>,
    pub oneline: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Attr(String, E),
    Block(Blk),
}

pub const KEYWORDS: [&str; 9] = ["null", "true", "false", "for", "if", "in", "else", "endif", "endfor"];

/// Merge adjacent literals and drop empty ones, also within directives. Expressions are left alone.
pub fn merge(ts: &[T]) -> Vec<T> {
    let mut out: Vec<T> = Vec::new();
    for t in ts {
        match t {
            T::Lit(s) if s.is_empty() => {}
            T::Lit(s) => match out.last_mut() {
                Some(T::Lit(p)) => p.push_str(s),
                _ => out.push(t.clone()),
            },
            T::Interp(..) => out.push(t.clone()),
            T::If { cond, then, els, s_if, s_else, s_end } => {
                out.push(T::If { cond: cond.clone(), then: merge(then), els: els.as_ref().map(|e| merge(e)), s_if: *s_if, s_else: *s_else, s_end: *s_end })
            }
            T::For { key, val, coll, body, s_for, s_end } => {
                out.push(T::For { key: key.clone(), val: val.clone(), coll: coll.clone(), body: merge(body), s_for: *s_for, s_end: *s_end })
            }
        }
    }
    out
}

/// The canonical form of a template (see `norm`).
pub fn norm_tpl(ts: &[T]) -> Vec<T> {
    let mut out: Vec<T> = Vec::new();
    for t in ts {
        match t {
            T::Lit(s) => {
                if s.is_empty() {
                    continue;
                }
                if let Some(T::Lit(p)) = out.last_mut() {
                    p.push_str(s);
                } else {
                    out.push(T::Lit(s.clone()));
                }
            }
            T::Interp(e, s) => out.push(T::Interp(norm(e), *s)),
            T::If { cond, then, els, s_if, s_else, s_end } => out.push(T::If {
                cond: norm(cond),
                then: norm_tpl(then),
                els: els.as_ref().map(|e| norm_tpl(e)),
                s_if: *s_if,
                s_else: *s_else,
                s_end: *s_end,
            }),
            T::For { key, val, coll, body, s_for, s_end } => out.push(T::For {
                key: key.clone(),
                val: val.clone(),
                coll: norm(coll),
                body: norm_tpl(body),
                s_for: *s_for,
                s_end: *s_end,
            }),
        }
    }
    out
}

/// The canonical form used to compare trees: flush heredocs are dedented, literals merged, block
/// layout forgotten, quoted templates without interpolation are strings.
pub fn norm(e: &E) -> E {
    match e {
        E::Arr(v) => E::Arr(v.iter().map(norm).collect()),
        E::Obj(v) => E::Obj(v.iter().map(|(k, e)| (norm_key(k), norm(e))).collect()),
        E::Tpl(ts) => {
            let ts = norm_tpl(ts);
            match &ts[..] {
                [] => E::Str(String::new()),
                [T::Lit(s)] => E::Str(s.clone()),
                _ => E::Tpl(ts),
            }
        }
        E::Heredoc(h) => {
            let mut tpl = merge(&h.tpl);
            if h.flush {
                tpl = dedented(&tpl);
            }
            E::Heredoc(Box::new(Hd { delim: h.delim.clone(), flush: h.flush, tpl: norm_tpl(&tpl) }))
        }
        E::Paren(e) => E::Paren(Box::new(norm(e))),
        E::Call(n, a, x) => E::Call(n.clone(), a.iter().map(norm).collect(), *x),
        E::Cond(c) => E::Cond(Box::new((norm(&c.0), norm(&c.1), norm(&c.2)))),
        E::Un(o, e) => E::Un(*o, Box::new(norm(e))),
        E::Bin(l, o, r) => E::Bin(Box::new(norm(l)), *o, Box::new(norm(r))),
        E::For(f) => E::For(Box::new(ForE {
            key_var: f.key_var.clone(),
            val_var: f.val_var.clone(),
            coll: norm(&f.coll),
            key: f.key.as_ref().map(norm),
            val: norm(&f.val),
            grouping: f.grouping,
            cond: f.cond.as_ref().map(norm),
        })),
        E::Trav(b, ops) => E::Trav(
            Box::new(norm(b)),
            ops.iter()
                .map(|o| match o {
                    Op::Index(e) => Op::Index(norm(e)),
                    o => o.clone(),
                })
                .collect(),
        ),
        E::Null | E::Bool(_) | E::Num(_) | E::Str(_) | E::Var(_) => e.clone(),
    }
}

pub fn norm_key(k: &K) -> K {
    match k {
        K::Id(s) => K::Id(s.clone()),
        K::Ex(E::Var(v)) => K::Id(v.clone()),
        K::Ex(e) => K::Ex(norm(e)),
    }
}

pub fn norm_body(b: &[S]) -> Vec<S> {
    b.iter()
        .map(|s| match s {
            S::Attr(k, e) => S::Attr(k.clone(), norm(e)),
            S::Block(b) => S::Block(Blk { ident: b.ident.clone(), labels: b.labels.clone(), body: norm_body(&b.body), oneline: false }),
        })
        .collect()
}

/// Rewrite every list of template elements, inner ones first.
pub fn map_tpls(e: &E, f: &dyn Fn(Vec<T>) -> Vec<T>) -> E {
    let m = |e: &E| map_tpls(e, f);
    let b = |e: &E| Box::new(map_tpls(e, f));
    match e {
        E::Arr(v) => E::Arr(v.iter().map(m).collect()),
        E::Obj(v) => E::Obj(
            v.iter()
                .map(|(k, e)| {
                    let k = match k {
                        K::Id(s) => K::Id(s.clone()),
                        K::Ex(e) => K::Ex(m(e)),
                    };
                    (k, m(e))
                })
                .collect(),
        ),
        E::Tpl(ts) => E::Tpl(map_elems(ts, f)),
        E::Heredoc(h) => E::Heredoc(Box::new(Hd { delim: h.delim.clone(), flush: h.flush, tpl: map_elems(&h.tpl, f) })),
        E::Paren(e) => E::Paren(b(e)),
        E::Call(n, a, x) => E::Call(n.clone(), a.iter().map(m).collect(), *x),
        E::Cond(c) => E::Cond(Box::new((m(&c.0), m(&c.1), m(&c.2)))),
        E::Un(o, e) => E::Un(*o, b(e)),
        E::Bin(l, o, r) => E::Bin(b(l), *o, b(r)),
        E::For(x) => E::For(Box::new(ForE {
            key_var: x.key_var.clone(),
            val_var: x.val_var.clone(),
            coll: m(&x.coll),
            key: x.key.as_ref().map(m),
            val: m(&x.val),
            grouping: x.grouping,
            cond: x.cond.as_ref().map(m),
        })),
        E::Trav(x, ops) => E::Trav(
            b(x),
            ops.iter()
                .map(|o| match o {
                    Op::Index(e) => Op::Index(m(e)),
                    o => o.clone(),
                })
                .collect(),
        ),
        E::Null | E::Bool(_) | E::Num(_) | E::Str(_) | E::Var(_) => e.clone(),
    }
}

pub fn map_elems(ts: &[T], f: &dyn Fn(Vec<T>) -> Vec<T>) -> Vec<T> {
    f(ts.iter()
        .map(|t| match t {
            T::Lit(_) => t.clone(),
            T::Interp(e, s) => T::Interp(map_tpls(e, f), *s),
            T::If { cond, then, els, s_if, s_else, s_end } => T::If {
                cond: map_tpls(cond, f),
                then: map_elems(then, f),
                els: els.as_ref().map(|e| map_elems(e, f)),
                s_if: *s_if,
                s_else: *s_else,
                s_end: *s_end,
            },
            T::For { key, val, coll, body, s_for, s_end } => {
                T::For { key: key.clone(), val: val.clone(), coll: map_tpls(coll, f), body: map_elems(body, f), s_for: *s_for, s_end: *s_end }
            }
        })
        .collect())
}

/// Interpolations of nothing but dollar and percent signs become literals: outside of quotes there
/// is no other way to write some of them.
pub fn join_markers(ts: Vec<T>) -> Vec<T> {
    let ts: Vec<T> = ts
        .into_iter()
        .map(|t| match t {
            T::Interp(E::Str(s), (false, false)) if !s.is_empty() && s.chars().all(|c| c == '$' || c == '%') => T::Lit(s),
            t => t,
        })
        .collect();
    let mut out: Vec<T> = Vec::new();
    for t in ts {
        match (t, out.last_mut()) {
            (T::Lit(s), Some(T::Lit(p))) => p.push_str(&s),
            (t, _) => out.push(t),
        }
    }
    out
}

/// Forget whether heredocs are of the flush kind.
pub fn unflush(e: &E) -> E {
    fn go(e: E) -> E {
        match e {
            E::Heredoc(mut h) => {
                h.flush = false;
                E::Heredoc(h)
            }
            e => e,
        }
    }
    map_expr(e, &go)
}

/// Rewrite every expression, inner ones first.
pub fn map_expr(e: &E, f: &dyn Fn(E) -> E) -> E {
    let m = |e: &E| map_expr(e, f);
    let b = |e: &E| Box::new(map_expr(e, f));
    f(match e {
        E::Arr(v) => E::Arr(v.iter().map(m).collect()),
        E::Obj(v) => E::Obj(
            v.iter()
                .map(|(k, e)| {
                    let k = match k {
                        K::Id(s) => K::Id(s.clone()),
                        K::Ex(e) => K::Ex(m(e)),
                    };
                    (k, m(e))
                })
                .collect(),
        ),
        E::Tpl(ts) => E::Tpl(map_texpr(ts, f)),
        E::Heredoc(h) => E::Heredoc(Box::new(Hd { delim: h.delim.clone(), flush: h.flush, tpl: map_texpr(&h.tpl, f) })),
        E::Paren(e) => E::Paren(b(e)),
        E::Call(n, a, x) => E::Call(n.clone(), a.iter().map(m).collect(), *x),
        E::Cond(c) => E::Cond(Box::new((m(&c.0), m(&c.1), m(&c.2)))),
        E::Un(o, e) => E::Un(*o, b(e)),
        E::Bin(l, o, r) => E::Bin(b(l), *o, b(r)),
        E::For(x) => E::For(Box::new(ForE {
            key_var: x.key_var.clone(),
            val_var: x.val_var.clone(),
            coll: m(&x.coll),
            key: x.key.as_ref().map(m),
            val: m(&x.val),
            grouping: x.grouping,
            cond: x.cond.as_ref().map(m),
        })),
        E::Trav(x, ops) => E::Trav(
            b(x),
            ops.iter()
                .map(|o| match o {
                    Op::Index(e) => Op::Index(m(e)),
                    o => o.clone(),
                })
                .collect(),
        ),
        E::Null | E::Bool(_) | E::Num(_) | E::Str(_) | E::Var(_) => e.clone(),
    })
}

pub fn map_texpr(ts: &[T], f: &dyn Fn(E) -> E) -> Vec<T> {
    ts.iter()
        .map(|t| match t {
            T::Lit(_) => t.clone(),
            T::Interp(e, s) => T::Interp(map_expr(e, f), *s),
            T::If { cond, then, els, s_if, s_else, s_end } => T::If {
                cond: map_expr(cond, f),
                then: map_texpr(then, f),
                els: els.as_ref().map(|e| map_texpr(e, f)),
                s_if: *s_if,
                s_else: *s_else,
                s_end: *s_end,
            },
            T::For { key, val, coll, body, s_for, s_end } => {
                T::For { key: key.clone(), val: val.clone(), coll: map_expr(coll, f), body: map_texpr(body, f), s_for: *s_for, s_end: *s_end }
            }
        })
        .collect()
}

pub fn map_body(b: &[S], f: &dyn Fn(&E) -> E) -> Vec<S> {
    b.iter()
        .map(|s| match s {
            S::Attr(k, e) => S::Attr(k.clone(), f(e)),
            S::Block(b) => S::Block(Blk { body: map_body(&b.body, f), ..b.clone() }),
        })
        .collect()
}

/// The canonical form up to what has no influence on the meaning: how heredocs are indented and
/// how markers are kept apart. To be applied once only, like `norm`.
pub fn meaning(e: &E) -> E {
    norm(&map_tpls(&unflush(&norm(e)), &join_markers))
}

/// `meaning` of a tree that was read back, whose heredocs are dedented already.
pub fn meaning_read(e: &E) -> E {
    norm(&map_tpls(&unflush(e), &join_markers))
}

/// The keyword is written as string where it is an object key, as it starts for expressions.
pub fn quoted_keys(e: &E) -> E {
    map_expr(e, &|e| match e {
        E::Obj(v) => E::Obj(
            v.into_iter()
                .map(|(k, v)| match k {
                    K::Id(s) if s == "for" => (K::Ex(E::Str(s)), v),
                    k => (k, v),
                })
                .collect(),
        ),
        e => e,
    })
}

pub fn quoted_keys_tpl(tpl: Vec<T>) -> Vec<T> {
    match quoted_keys(&E::Heredoc(Box::new(Hd { delim: "E".into(), flush: false, tpl }))) {
        E::Heredoc(h) => h.tpl,
        _ => unreachable!(),
    }
}

pub fn strip_label_kind(b: &[S]) -> Vec<S> {
    b.iter()
        .map(|s| match s {
            S::Attr(k, e) => S::Attr(k.clone(), e.clone()),
            S::Block(b) => S::Block(Blk {
                ident: b.ident.clone(),
                labels: b.labels.iter().map(|l| L::Str(l.text().to_string())).collect(),
                body: strip_label_kind(&b.body),
                oneline: b.oneline,
            }),
        })
        .collect()
}

// --- Flush heredocs -----------------------------------------------------------------------------

fn is_indent(c: char) -> bool {
    c.is_whitespace() && c != '\n' && c != '\r'
}

/// The text of the template with every interpolation and directive tag replaced by a NUL, so that
/// lines can be looked at.
fn flat(ts: &[T], out: &mut String) {
    for t in ts {
        match t {
            T::Lit(s) => out.push_str(s),
            T::Interp(..) => out.push('\0'),
            T::If { then, els, .. } => {
                out.push('\0');
                flat(then, out);
                if let Some(e) = els {
                    out.push('\0');
                    flat(e, out);
                }
                out.push('\0');
            }
            T::For { body, .. } => {
                out.push('\0');
                flat(body, out);
                out.push('\0');
            }
        }
    }
}

/// Common leading indentation, in characters, of all lines that are not empty.
pub fn common_indent(ts: &[T]) -> usize {
    let mut s = String::new();
    flat(ts, &mut s);
    s.split('\n')
        .map(|l| l.strip_suffix('\r').unwrap_or(l))
        .filter(|l| !l.is_empty())
        .map(|l| l.chars().take_while(|c| is_indent(*c)).count())
        .min()
        .unwrap_or(0)
}

pub fn dedented(ts: &[T]) -> Vec<T> {
    let n = common_indent(ts);
    let mut start = true;
    dedent_walk(ts, n, &mut start)
}

fn dedent_text(s: &str, n: usize, start: &mut bool) -> String {
    let mut out = String::new();
    let mut skip = if *start { n } else { 0 };
    for c in s.chars() {
        if skip > 0 && is_indent(c) {
            skip -= 1;
            *start = false;
            continue;
        }
        skip = 0;
        out.push(c);
        *start = false;
        if c == '\n' {
            skip = n;
            *start = true;
        }
    }
    out
}

fn dedent_walk(ts: &[T], n: usize, start: &mut bool) -> Vec<T> {
    ts.iter()
        .map(|t| match t {
            T::Lit(s) => T::Lit(dedent_text(s, n, start)),
            T::Interp(e, s) => {
                *start = false;
                T::Interp(e.clone(), *s)
            }
            T::If { cond, then, els, s_if, s_else, s_end } => {
                *start = false;
                let then = dedent_walk(then, n, start);
                *start = false;
                let els = els.as_ref().map(|e| dedent_walk(e, n, start));
                *start = false;
                T::If { cond: cond.clone(), then, els, s_if: *s_if, s_else: *s_else, s_end: *s_end }
            }
            T::For { key, val, coll, body, s_for, s_end } => {
                *start = false;
                let body = dedent_walk(body, n, start);
                *start = false;
                T::For { key: key.clone(), val: val.clone(), coll: coll.clone(), body, s_for: *s_for, s_end: *s_end }
            }
        })
        .collect()
}

// --- Queries --------------------------------------------------------------------------------------

/// Calls `f` for every expression in the tree, including nested ones, parents first.
pub fn walk<'a>(e: &'a E, f: &mut dyn FnMut(&'a E)) {
    f(e);
    match e {
        E::Arr(v) => v.iter().for_each(|e| walk(e, f)),
        E::Obj(v) => v.iter().for_each(|(k, e)| {
            if let K::Ex(k) = k {
                walk(k, f);
            }
            walk(e, f);
        }),
        E::Tpl(t) => walk_tpl(t, f),
        E::Heredoc(h) => walk_tpl(&h.tpl, f),
        E::Paren(e) | E::Un(_, e) => walk(e, f),
        E::Call(_, a, _) => a.iter().for_each(|e| walk(e, f)),
        E::Cond(c) => {
            walk(&c.0, f);
            walk(&c.1, f);
            walk(&c.2, f);
        }
        E::Bin(l, _, r) => {
            walk(l, f);
            walk(r, f);
        }
        E::For(x) => {
            walk(&x.coll, f);
            if let Some(k) = &x.key {
                walk(k, f);
            }
            walk(&x.val, f);
            if let Some(c) = &x.cond {
                walk(c, f);
            }
        }
        E::Trav(b, ops) => {
            walk(b, f);
            for o in ops {
                if let Op::Index(e) = o {
                    walk(e, f);
                }
            }
        }
        E::Null | E::Bool(_) | E::Num(_) | E::Str(_) | E::Var(_) => {}
    }
}

pub fn walk_tpl<'a>(ts: &'a [T], f: &mut dyn FnMut(&'a E)) {
    for t in ts {
        match t {
            T::Lit(_) => {}
            T::Interp(e, _) => walk(e, f),
            T::If { cond, then, els, .. } => {
                walk(cond, f);
                walk_tpl(then, f);
                if let Some(e) = els {
                    walk_tpl(e, f);
                }
            }
            T::For { coll, body, .. } => {
                walk(coll, f);
                walk_tpl(body, f);
            }
        }
    }
}

pub fn walk_body<'a>(b: &'a [S], f: &mut dyn FnMut(&'a E)) {
    for s in b {
        match s {
            S::Attr(_, e) => walk(e, f),
            S::Block(b) => walk_body(&b.body, f),
        }
    }
}

pub fn kind(e: &E) -> &'static str {
    match e {
        E::Null => "null",
        E::Bool(_) => "bool",
        E::Num(_) => "number",
        E::Str(_) => "string",
        E::Arr(_) => "array",
        E::Obj(_) => "object",
        E::Tpl(_) => "template",
        E::Heredoc(_) => "heredoc",
        E::Var(_) => "variable",
        E::Paren(_) => "paren",
        E::Call(..) => "call",
        E::Cond(_) => "conditional",
        E::Un(..) => "unary",
        E::Bin(..) => "binary",
        E::For(_) => "for",
        E::Trav(..) => "traversal",
    }
}
