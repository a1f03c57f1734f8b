//! Writes a reference tree as HCL source text with random trivia, spelling and layout, recording
//! where every node went.

use crate::model::*;
use crate::src::Src;

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub kind: &'static str,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Copy, PartialEq)]
enum Prev {
    Other,
    Ident,
    Num,
}

pub struct R<'a> {
    pub out: String,
    s: &'a mut Src,
    prev: Prev,
    /// How much trivia to write: 0 none but what is needed, 1 single spaces, 2 everything.
    level: u8,
    pub crlf: bool,
    pub recs: Vec<Rec>,
    /// Where the text inside of quotes went, and what it means.
    pub strs: Vec<(usize, usize, String)>,
}

/// A rendered tree.
pub struct Doc {
    pub text: String,
    pub recs: Vec<Rec>,
    pub strs: Vec<(usize, usize, String)>,
}

impl Doc {
    /// The same with plain line breaks.
    pub fn lf(&self) -> Doc {
        let at = |p: usize| p - self.text[..p].matches("\r\n").count();
        Doc {
            text: self.text.replace("\r\n", "\n"),
            recs: Vec::new(),
            strs: self.strs.iter().map(|(a, b, v)| (at(*a), at(*b), v.clone())).collect(),
        }
    }

    /// Equality of a text with the rendered one up to the spelling of escape sequences in quoted
    /// text.
    pub fn same(&self, got: &str) -> bool {
        let mut pos = 0;
        let mut rest = got;
        for (start, end, value) in &self.strs {
            let Some(r) = rest.strip_prefix(&self.text[pos..*start]) else { return false };
            let Some(r) = eat_quoted(r, value) else { return false };
            rest = r;
            pos = *end;
        }
        rest == &self.text[pos..]
    }
}

/// Consume a quoted spelling of `value` from the front of `s`.
pub fn eat_quoted<'a>(s: &'a str, value: &str) -> Option<&'a str> {
    let mut rest = s;
    let mut want = value.chars().peekable();
    while let Some(w) = want.next() {
        let mut cs = rest.chars();
        let c = cs.next()?;
        if c == '\\' {
            let k = cs.next()?;
            let mut hex = |n: usize| -> Option<char> {
                let digits: String = cs.by_ref().take(n).collect();
                if digits.len() != n {
                    return None;
                }
                char::from_u32(u32::from_str_radix(&digits, 16).ok()?)
            };
            let d = match k {
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                'b' => '\u{8}',
                'f' => '\u{c}',
                '"' | '\\' | '/' => k,
                'u' => hex(4)?,
                'U' => hex(8)?,
                _ => return None,
            };
            if d != w {
                return None;
            }
        } else if c == '"' || c == '\n' || c != w {
            return None;
        } else if (c == '$' || c == '%') && want.peek() == Some(&'{') {
            // Has to be doubled unless the brace is escaped.
            let r = cs.as_str();
            if r.starts_with(c) {
                cs.next();
            } else if !r.starts_with('\\') {
                return None;
            }
        }
        rest = cs.as_str();
    }
    Some(rest)
}

fn id_char(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '-' || !c.is_ascii()
}

const COMMENT: [&str; 12] = ["", " c", " ${x}", " \"q", " %{ if", " }", " ]", " EOT", "* x", " é日", " = 1", " <<A"];

impl<'a> R<'a> {
    pub fn new(s: &'a mut Src) -> R<'a> {
        let level = [2u8, 1, 0][s.weighted(&[5, 2, 1])];
        R { out: String::new(), s, prev: Prev::Other, level, crlf: false, recs: Vec::new(), strs: Vec::new() }
    }

    fn tok(&mut self, t: &str, kind: Prev) {
        let c = t.chars().next().unwrap_or(' ');
        let clash = match self.prev {
            Prev::Ident => id_char(c),
            Prev::Num => id_char(c) && c != '-',
            Prev::Other => false,
        };
        if clash {
            self.out.push(' ');
        }
        self.out.push_str(t);
        self.prev = kind;
    }

    fn p(&mut self, t: &str) {
        self.tok(t, Prev::Other);
    }

    fn id(&mut self, t: &str) -> usize {
        self.tok(t, Prev::Ident);
        let start = self.out.len() - t.len();
        self.recs.push(Rec { kind: "ident", start, end: self.out.len() });
        start
    }

    /// A keyword: no node.
    fn kw(&mut self, t: &str) {
        self.tok(t, Prev::Ident);
    }

    fn nl(&mut self) {
        self.out.push_str(if self.crlf { "\r\n" } else { "\n" });
        self.prev = Prev::Other;
    }

    fn push_trivia(&mut self, t: &str) {
        if t.is_empty() {
            return;
        }
        if t.starts_with('/') && (self.out.ends_with('/')) {
            self.out.push(' ');
        }
        self.out.push_str(t);
        self.prev = Prev::Other;
    }

    fn comment_text(&mut self) -> String {
        (*self.s.pick(&COMMENT)).to_string()
    }

    /// Spaces and inline comments.
    pub fn sp(&mut self) {
        match self.level {
            0 => {}
            1 => {
                if self.s.chance(2, 3) {
                    self.push_trivia(" ");
                }
            }
            _ => match self.s.weighted(&[6, 6, 2, 2, 2]) {
                0 => {}
                1 => self.push_trivia(" "),
                2 => self.push_trivia("  "),
                3 => self.push_trivia("\t"),
                _ => {
                    let c = self.comment_text().replace("*/", "");
                    let nl = if self.s.chance(1, 6) { "\n" } else { "" };
                    let pre = if self.s.bool() { " " } else { "" };
                    let post = if self.s.bool() { " " } else { "" };
                    self.push_trivia(&format!("{pre}/*{c}{nl}*/{post}"));
                }
            },
        }
    }

    /// Like `sp`, with line breaks and line comments.
    pub fn ws(&mut self) {
        if self.level < 2 {
            return self.sp();
        }
        match self.s.weighted(&[7, 2, 1, 1]) {
            0 => self.sp(),
            1 => {
                self.sp();
                self.nl();
                self.sp();
            }
            2 => {
                let c = self.comment_text();
                let m = if self.s.bool() { "#" } else { "//" };
                let pre = if self.s.bool() { " " } else { "" };
                self.push_trivia(&format!("{pre}{m}{c}"));
                self.nl();
                self.sp();
            }
            _ => {
                self.nl();
                self.nl();
                self.sp();
            }
        }
    }

    fn tr(&mut self, ml: bool) {
        if ml {
            self.ws();
        } else {
            self.sp();
        }
    }

    fn rec<T>(&mut self, kind: &'static str, f: impl FnOnce(&mut Self) -> T) -> T {
        let slot = self.recs.len();
        self.recs.push(Rec { kind, start: usize::MAX, end: 0 });
        let r = f(self);
        self.recs[slot].end = self.out.len();
        r
    }

    // --- literals ---------------------------------------------------------------------------------

    fn num_text(&mut self, n: &N) -> String {
        match n {
            N::U(u) => {
                if *u > 0 && *u < 1_000_000 && self.s.chance(1, 8) {
                    // A different spelling of the same value.
                    match self.s.below(4) {
                        0 => format!("{u}.0"),
                        1 => format!("{u}e0"),
                        2 => format!("0{u}"),
                        _ => format!("{u}.00E+0"),
                    }
                } else {
                    u.to_string()
                }
            }
            N::I(_) => unreachable!(),
            N::F(f) => match self.s.below(3) {
                0 => {
                    let t = format!("{f:e}");
                    if self.s.bool() {
                        t.replace('e', "E")
                    } else {
                        t
                    }
                }
                1 => format!("{f:?}"),
                _ => {
                    let t = format!("{f}");
                    if t.contains('.') {
                        t
                    } else {
                        // Written out in full the digits would be read as an integer.
                        format!("{t}.0")
                    }
                }
            },
        }
    }

    fn num(&mut self, n: &N) {
        if n.is_neg() {
            self.tok("-", Prev::Other);
            let at = self.out.len() - 1;
            self.fix_start(at);
            self.sp();
            let abs = match n {
                N::I(i) => i.unsigned_abs().to_string(),
                N::F(f) => self.num_text(&N::F(-f)),
                N::U(_) => unreachable!(),
            };
            self.out.push_str(&abs);
            self.prev = Prev::Num;
        } else {
            let t = self.num_text(n);
            self.tok(&t, Prev::Num);
            let at = self.out.len() - t.len();
            self.fix_start(at);
        }
    }

    /// The innermost records that have no start yet begin at `at`.
    fn fix_start(&mut self, at: usize) {
        for r in self.recs.iter_mut().rev() {
            if r.end != 0 || r.start != usize::MAX {
                continue;
            }
            r.start = at;
        }
    }

    /// Text of a literal inside quotes. `next` is the marker character of the element that follows.
    fn quoted_text(&mut self, lit: &str, next: Option<char>) -> String {
        let mut out = String::new();
        let cs: Vec<char> = lit.chars().collect();
        for (i, c) in cs.iter().copied().enumerate() {
            let marker = (c == '$' || c == '%') && cs.get(i + 1) == Some(&'{');
            if i + 1 == cs.len() && next == Some(c) {
                // Would be part of an escaped marker otherwise.
                out.push_str(&format!("\\u{:04x}", c as u32));
                continue;
            }
            if marker {
                if self.s.chance(1, 8) {
                    out.push_str(&format!("\\u{:04x}", c as u32));
                } else {
                    out.push(c);
                    out.push(c);
                }
                continue;
            }
            match c {
                '"' | '\\' => {
                    if self.s.chance(1, 10) {
                        out.push_str(&format!("\\u{:04X}", c as u32));
                    } else {
                        out.push('\\');
                        out.push(c);
                    }
                }
                '\n' => out.push_str("\\n"),
                '\r' => out.push_str("\\r"),
                '\t' if self.s.bool() => out.push_str("\\t"),
                '\u{8}' if self.s.bool() => out.push_str("\\b"),
                '\u{c}' if self.s.bool() => out.push_str("\\f"),
                '/' if self.s.bool() => out.push_str("\\/"),
                c if self.level == 2 && self.s.chance(1, 20) && !matches!(c, '$' | '%' | '{') => {
                    let v = c as u32;
                    if v > 0xffff || self.s.bool() {
                        out.push_str(&format!("\\U{v:08x}"));
                    } else {
                        out.push_str(&format!("\\u{v:04X}"));
                    }
                }
                c => out.push(c),
            }
        }
        out
    }

    fn raw_text(lit: &str) -> String {
        let mut out = String::new();
        let cs: Vec<char> = lit.chars().collect();
        for (i, c) in cs.iter().copied().enumerate() {
            out.push(c);
            if (c == '$' || c == '%') && cs.get(i + 1) == Some(&'{') {
                out.push(c);
            }
        }
        out
    }

    fn push_quoted(&mut self, text: &str, value: &str) {
        let start = self.out.len();
        self.out.push_str(text);
        self.strs.push((start, self.out.len(), value.to_string()));
    }

    fn string(&mut self, s: &str) -> usize {
        self.p("\"");
        let at = self.out.len() - 1;
        let t = self.quoted_text(s, None);
        self.push_quoted(&t, s);
        self.out.push('"');
        at
    }

    // --- templates --------------------------------------------------------------------------------

    fn open(&mut self, m: &str, strip: bool) {
        self.out.push_str(m);
        if strip {
            self.out.push('~');
        }
        self.prev = Prev::Other;
    }

    fn close(&mut self, strip: bool) {
        if strip {
            self.out.push('~');
        }
        self.out.push('}');
        self.prev = Prev::Other;
    }

    /// `end`: the first character of the marker after the last element.
    pub fn elements(&mut self, ts: &[T], quoted: bool, end: Option<char>) {
        for (i, t) in ts.iter().enumerate() {
            let next = match ts.get(i + 1) {
                Some(T::Interp(..)) => Some('$'),
                Some(T::If { .. } | T::For { .. }) => Some('%'),
                Some(T::Lit(_)) => None,
                None => end,
            };
            match t {
                T::Lit(s) => {
                    self.rec("literal", |r| {
                        let at = r.out.len();
                        r.fix_start(at);
                        if quoted {
                            let text = r.quoted_text(s, next);
                            r.push_quoted(&text, s);
                        } else {
                            r.out.push_str(&Self::raw_text(s));
                        }
                    });
                }
                T::Interp(e, st) => {
                    self.rec("interpolation", |r| {
                        let at = r.out.len();
                        r.fix_start(at);
                        r.open("${", st.0);
                        r.ws();
                        r.expr(e, true);
                        r.ws();
                        r.close(st.1);
                    });
                }
                T::If { cond, then, els, s_if, s_else, s_end } => {
                    self.rec("directive", |r| {
                        let at = r.out.len();
                        r.fix_start(at);
                        r.open("%{", s_if.0);
                        r.ws();
                        r.kw("if");
                        r.ws();
                        r.expr(cond, true);
                        r.ws();
                        r.close(s_if.1);
                        r.elements(then, quoted, Some('%'));
                        if let Some(els) = els {
                            r.open("%{", s_else.0);
                            r.ws();
                            r.kw("else");
                            r.ws();
                            r.close(s_else.1);
                            r.elements(els, quoted, Some('%'));
                        }
                        r.open("%{", s_end.0);
                        r.ws();
                        r.kw("endif");
                        r.ws();
                        r.close(s_end.1);
                    });
                }
                T::For { key, val, coll, body, s_for, s_end } => {
                    self.rec("directive", |r| {
                        let at = r.out.len();
                        r.fix_start(at);
                        r.open("%{", s_for.0);
                        r.ws();
                        r.kw("for");
                        r.ws();
                        if let Some(k) = key {
                            r.id(k);
                            r.ws();
                            r.p(",");
                            r.ws();
                        }
                        r.id(val);
                        r.ws();
                        r.kw("in");
                        r.ws();
                        r.expr(coll, true);
                        r.ws();
                        r.close(s_for.1);
                        r.elements(body, quoted, Some('%'));
                        r.open("%{", s_end.0);
                        r.ws();
                        r.kw("endfor");
                        r.ws();
                        r.close(s_end.1);
                    });
                }
            }
        }
    }

    fn heredoc(&mut self, h: &Hd) {
        self.p(if h.flush { "<<-" } else { "<<" });
        let at = self.out.len() - if h.flush { 3 } else { 2 };
        self.fix_start(at);
        self.out.push_str(&h.delim);
        self.nl();
        self.elements(&h.tpl, false, None);
        let n = self.s.weighted(&[3, 1, 1, 1]);
        self.out.push_str(["", " ", "    ", "\t"][n]);
        self.out.push_str(&h.delim);
        self.prev = Prev::Ident;
    }

    // --- expressions ------------------------------------------------------------------------------

    /// `ml`: line breaks do not end the expression here.
    pub fn expr(&mut self, e: &E, ml: bool) {
        self.rec(kind(e), |r| r.expr_inner(e, ml));
    }

    fn at(&mut self, n: usize) {
        let at = self.out.len() - n;
        self.fix_start(at);
    }

    fn expr_inner(&mut self, e: &E, ml: bool) {
        match e {
            E::Null => {
                self.kw("null");
                self.at(4);
            }
            E::Bool(b) => {
                let t = if *b { "true" } else { "false" };
                self.kw(t);
                self.at(t.len());
            }
            E::Num(n) => self.num(n),
            E::Str(s) => {
                let at = self.string(s);
                self.fix_start(at);
            }
            E::Var(v) => {
                self.kw(v);
                self.at(v.len());
            }
            E::Arr(v) => {
                self.p("[");
                self.at(1);
                self.ws();
                self.list(v, false);
                self.p("]");
            }
            E::Obj(v) => self.object(v),
            E::Tpl(ts) => {
                self.p("\"");
                self.at(1);
                self.elements(ts, true, None);
                self.out.push('"');
                self.prev = Prev::Other;
            }
            E::Heredoc(h) => self.heredoc(h),
            E::Paren(e) => {
                self.p("(");
                self.at(1);
                self.ws();
                self.expr(e, true);
                self.ws();
                self.p(")");
            }
            E::Call(n, a, x) => {
                for (i, c) in n.iter().enumerate() {
                    if i > 0 {
                        self.p("::");
                        self.tr(ml);
                    }
                    let at = self.id(c);
                    if i == 0 {
                        self.fix_start(at);
                    }
                    self.tr(ml);
                }
                self.p("(");
                self.ws();
                self.list(a, *x);
                self.p(")");
            }
            E::Cond(c) => {
                self.expr(&c.0, ml);
                self.tr(ml);
                self.p("?");
                self.tr(ml);
                self.expr(&c.1, ml);
                self.tr(ml);
                self.p(":");
                self.tr(ml);
                self.expr(&c.2, ml);
            }
            E::Un(o, e) => {
                self.p(if *o == Un::Neg { "-" } else { "!" });
                self.at(1);
                let end = self.out.len();
                self.recs.push(Rec { kind: "unary-operator", start: end - 1, end });
                self.tr(ml);
                self.expr(e, ml);
            }
            E::Bin(l, o, r) => {
                self.expr(l, ml);
                self.tr(ml);
                let t = o.sym();
                self.p(t);
                let end = self.out.len();
                self.recs.push(Rec { kind: "operator", start: end - t.len(), end });
                self.tr(ml);
                self.expr(r, ml);
            }
            E::For(f) => self.for_expr(f),
            E::Trav(b, ops) => {
                self.expr(b, ml);
                for o in ops {
                    self.tr(ml);
                    self.rec("traversal-operator", |r| r.trav_op(o));
                }
            }
        }
    }

    fn trav_op(&mut self, o: &Op) {
        let dot = !matches!(o, Op::Index(_) | Op::FullSplat);
        self.p(if dot { "." } else { "[" });
        self.at(1);
        self.ws();
        match o {
            Op::Attr(n) => {
                self.id(n);
            }
            Op::Legacy(n) => {
                self.tok(&n.to_string(), Prev::Num);
                let (start, end) = (self.out.len() - n.to_string().len(), self.out.len());
                self.recs.push(Rec { kind: "legacy-index", start, end });
            }
            Op::AttrSplat | Op::FullSplat => {
                self.p("*");
                let end = self.out.len();
                self.recs.push(Rec { kind: "splat", start: end - 1, end });
            }
            Op::Index(e) => self.expr(e, true),
        }
        if !dot {
            self.ws();
            self.p("]");
        }
    }

    fn list(&mut self, v: &[E], expand: bool) {
        for (i, e) in v.iter().enumerate() {
            self.expr(e, true);
            let heredoc = matches!(e, E::Heredoc(_));
            if heredoc {
                self.nl();
            }
            self.ws();
            if i + 1 < v.len() {
                self.p(",");
                self.ws();
            }
        }
        if !v.is_empty() {
            if expand {
                self.p("...");
                self.ws();
            } else if self.s.chance(1, 5) {
                self.p(",");
                self.ws();
            }
        }
    }

    fn object(&mut self, v: &[(K, E)]) {
        self.p("{");
        self.at(1);
        for (i, (k, e)) in v.iter().enumerate() {
            self.ws();
            match k {
                K::Id(n) => {
                    self.id(n);
                }
                K::Ex(e) => self.expr(e, false),
            }
            self.sp();
            let sep = if self.s.chance(1, 3) { ":" } else { "=" };
            self.p(sep);
            self.sp();
            self.expr(e, false);
            let last = i + 1 == v.len();
            if matches!(e, E::Heredoc(_)) {
                self.nl();
                continue;
            }
            self.sp();
            match self.s.weighted(&[3, 3, 2]) {
                0 if last => {}
                1 => self.nl(),
                2 if self.level == 2 => {
                    let c = self.comment_text();
                    let m = if self.s.bool() { "#" } else { "//" };
                    self.push_trivia(&format!("{m}{c}"));
                    self.nl();
                }
                _ => self.p(","),
            }
        }
        self.obj_end();
        self.p("}");
    }

    fn obj_end(&mut self) {
        // After the last item line breaks are only possible if it has been terminated.
        if self.out.ends_with(['{', ',', '\n']) {
            self.ws();
        }
    }

    fn for_expr(&mut self, f: &ForE) {
        let obj = f.key.is_some();
        self.p(if obj { "{" } else { "[" });
        self.at(1);
        self.ws();
        self.kw("for");
        self.ws();
        if let Some(k) = &f.key_var {
            self.id(k);
            self.ws();
            self.p(",");
            self.ws();
        }
        self.id(&f.val_var);
        self.ws();
        self.kw("in");
        self.ws();
        self.expr(&f.coll, true);
        self.ws();
        self.p(":");
        self.ws();
        if let Some(k) = &f.key {
            self.expr(k, true);
            self.ws();
            self.p("=>");
            self.ws();
            self.expr(&f.val, true);
            self.ws();
            if f.grouping {
                self.p("...");
                self.ws();
            }
        } else {
            self.expr(&f.val, true);
            self.ws();
        }
        if let Some(c) = &f.cond {
            self.kw("if");
            self.ws();
            self.expr(c, true);
            self.ws();
        }
        self.p(if obj { "}" } else { "]" });
    }

    // --- structures -------------------------------------------------------------------------------

    pub fn body(&mut self, b: &[S], top: bool) {
        for (i, s) in b.iter().enumerate() {
            self.ws();
            match s {
                S::Attr(k, e) => self.rec("attribute", |r| {
                    let at = r.id(k);
                    r.fix_start(at);
                    r.sp();
                    r.p("=");
                    r.sp();
                    r.expr(e, false);
                }),
                S::Block(b) => self.rec("block", |r| r.block(b)),
            }
            if matches!(s, S::Attr(_, E::Heredoc(_))) {
                // A heredoc ends at its delimiter.
                if top && i + 1 == b.len() && self.s.chance(1, 4) {
                    return;
                }
                self.nl();
                continue;
            }
            self.sp();
            if self.level == 2 && self.s.chance(1, 6) {
                let c = self.comment_text();
                let m = if self.s.bool() { "#" } else { "//" };
                self.push_trivia(&format!("{m}{c}"));
            }
            if top && i + 1 == b.len() && self.s.chance(1, 4) {
                return;
            }
            self.nl();
        }
        self.ws();
    }

    fn block(&mut self, b: &Blk) {
        let at = self.id(&b.ident);
        self.fix_start(at);
        self.sp();
        for l in &b.labels {
            match l {
                L::Id(n) => {
                    self.id(n);
                }
                L::Str(s) => {
                    let at = self.string(s);
                    let end = self.out.len();
                    self.recs.push(Rec { kind: "string-label", start: at, end });
                }
            }
            self.sp();
        }
        self.p("{");
        if b.oneline {
            self.sp();
            if let Some(S::Attr(k, e)) = b.body.first() {
                self.rec("attribute", |r| {
                    let at = r.id(k);
                    r.fix_start(at);
                    r.sp();
                    r.p("=");
                    r.sp();
                    r.expr(e, false);
                });
                self.sp();
            }
        } else {
            self.sp();
            if self.level == 2 && self.s.chance(1, 6) {
                let c = self.comment_text();
                self.push_trivia(&format!("#{c}"));
            }
            self.nl();
            self.body(&b.body, false);
        }
        self.p("}");
    }
}

impl R<'_> {
    fn done(self) -> Doc {
        Doc { text: self.out, recs: self.recs, strs: self.strs }
    }
}

pub fn render_body(s: &mut Src, b: &[S], crlf: bool) -> Doc {
    let mut r = R::new(s);
    r.crlf = crlf;
    r.body(b, true);
    r.done()
}

pub fn render_expr(s: &mut Src, e: &E) -> Doc {
    let mut r = R::new(s);
    r.expr(e, false);
    r.done()
}

pub fn render_tpl(s: &mut Src, t: &[T]) -> Doc {
    let mut r = R::new(s);
    r.elements(t, false, None);
    r.done()
}
