//! The reference evaluator: the HCL expression semantics over the reference tree.

use crate::model::*;
use crate::props::number;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Bool(bool),
    Num(N),
    Str(String),
    Arr(Vec<V>),
    /// In order of insertion.
    Obj(Vec<(String, V)>),
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Null, V::Null) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Num(a), V::Num(b)) => a == b,
            (V::Str(a), V::Str(b)) => a == b,
            (V::Arr(a), V::Arr(b)) => a == b,
            (V::Obj(a), V::Obj(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(l, w)| k == l && v == w)),
            _ => false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Null,
    Bool,
    Num,
    Str,
    Arr,
    Obj,
}

impl V {
    pub fn ty(&self) -> Ty {
        match self {
            V::Null => Ty::Null,
            V::Bool(_) => Ty::Bool,
            V::Num(_) => Ty::Num,
            V::Str(_) => Ty::Str,
            V::Arr(_) => Ty::Arr,
            V::Obj(_) => Ty::Obj,
        }
    }
    /// Equal including the order of object entries.
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (V::Obj(a), V::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && x.same(y)),
            _ => self == o,
        }
    }
    pub fn real(&self) -> hcl::Value {
        match self {
            V::Null => hcl::Value::Null,
            V::Bool(b) => hcl::Value::Bool(*b),
            V::Num(n) => hcl::Value::Number(number::make(n)),
            V::Str(s) => hcl::Value::String(s.clone()),
            V::Arr(a) => hcl::Value::Array(a.iter().map(V::real).collect()),
            V::Obj(o) => hcl::Value::Object(o.iter().map(|(k, v)| (k.clone(), v.real())).collect()),
        }
    }
    pub fn of(v: &hcl::Value) -> V {
        match v {
            hcl::Value::Null => V::Null,
            hcl::Value::Bool(b) => V::Bool(*b),
            hcl::Value::Number(n) => V::Num(crate::reify::number(n)),
            hcl::Value::String(s) => V::Str(s.clone()),
            hcl::Value::Array(a) => V::Arr(a.iter().map(V::of).collect()),
            hcl::Value::Object(o) => V::Obj(o.iter().map(|(k, v)| (k.clone(), V::of(v))).collect()),
        }
    }
    /// The value as literal expression.
    pub fn lit(&self) -> E {
        match self {
            V::Null => E::Null,
            V::Bool(b) => E::Bool(*b),
            V::Num(n) => E::Num(n.clone()),
            V::Str(s) => E::Str(s.clone()),
            V::Arr(a) => E::Arr(a.iter().map(V::lit).collect()),
            V::Obj(o) => E::Obj(o.iter().map(|(k, v)| (K::Ex(E::Str(k.clone())), v.lit())).collect()),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            V::Arr(a) => 1 + a.iter().map(V::depth).max().unwrap_or(0),
            V::Obj(o) => 1 + o.iter().map(|(_, v)| v.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

/// Why there is no value.
#[derive(Clone, Debug, PartialEq)]
pub enum Er {
    UndefVar(String),
    UndefFn(Vec<String>),
    /// Something of an unexpected type.
    Type,
    Index(u64),
    NoKey(String),
    KeyExists(String),
    Unary,
    Binary,
    /// Wrong arguments, the function was not run.
    Args(Vec<String>),
    /// The function ran and failed.
    Func(Vec<String>, String),
}

pub type R<X> = Result<X, Er>;

#[derive(Clone, Debug)]
pub enum P {
    Any,
    Bool,
    Num,
    Str,
    Arr(Box<P>),
    Obj(Box<P>),
    OneOf(Vec<P>),
    Nullable(Box<P>),
}

impl P {
    pub fn admits(&self, v: &V) -> bool {
        match (self, v) {
            (P::Any, _) => true,
            (P::Bool, V::Bool(_)) | (P::Num, V::Num(_)) | (P::Str, V::Str(_)) => true,
            (P::Arr(p), V::Arr(a)) => a.iter().all(|v| p.admits(v)),
            (P::Obj(p), V::Obj(o)) => o.iter().all(|(_, v)| p.admits(v)),
            (P::OneOf(ps), v) => ps.iter().any(|p| p.admits(v)),
            (P::Nullable(p), v) => matches!(v, V::Null) || p.admits(v),
            _ => false,
        }
    }
}

/// What the bodies of the test functions do.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Body {
    /// All arguments as array.
    List,
    First,
    Count,
    /// Fails always.
    Fail,
    /// The arguments as two arrays, positional and variadic.
    Split,
}

pub const BODIES: [Body; 5] = [Body::List, Body::First, Body::Count, Body::Split, Body::Fail];

#[derive(Clone, Debug)]
pub struct Fun {
    pub name: Vec<String>,
    pub params: Vec<P>,
    pub variadic: Option<P>,
    pub body: Body,
}

impl Fun {
    pub fn fits(&self, args: &[V]) -> bool {
        if args.len() < self.params.len() || (self.variadic.is_none() && args.len() > self.params.len()) {
            return false;
        }
        args.iter().enumerate().all(|(i, a)| self.params.get(i).or(self.variadic.as_ref()).is_some_and(|p| p.admits(a)))
    }
    fn refused(&self, args: &[V]) -> Refused {
        match args.iter().enumerate().find(|(i, a)| !self.params.get(*i).or(self.variadic.as_ref()).is_some_and(|p| p.admits(a))) {
            Some((i, _)) if args.len() >= self.params.len() && (self.variadic.is_some() || args.len() == self.params.len()) => Refused::Position(i),
            _ => Refused::Number(self.params.len(), args.len()),
        }
    }
    pub fn run(&self, args: &[V]) -> Result<V, String> {
        Ok(match self.body {
            Body::List => V::Arr(args.to_vec()),
            Body::First => args.first().cloned().unwrap_or(V::Null),
            Body::Count => V::Num(N::U(args.len() as u64)),
            Body::Split => {
                let (p, v) = args.split_at(self.params.len());
                V::Arr(vec![V::Arr(p.to_vec()), V::Arr(v.to_vec())])
            }
            Body::Fail => return Err(format!("failed with {} arguments", args.len())),
        })
    }
}

#[derive(Clone, Debug, Default)]
pub struct Env {
    pub vars: BTreeMap<String, V>,
    pub funs: Vec<Fun>,
}

impl Env {
    pub fn fun(&self, name: &[String]) -> Option<&Fun> {
        self.funs.iter().rev().find(|f| f.name == name)
    }
}

/// A call that ran the function.
#[derive(Clone, Debug, PartialEq)]
pub struct CallRec {
    pub body: Body,
    pub args: Vec<V>,
}

pub struct Ev<'a> {
    pub env: &'a Env,
    scopes: Vec<(String, V)>,
    pub log: Vec<CallRec>,
    /// Kinds of things that were computed, for statistics.
    pub seen: Vec<&'static str>,
    /// Why the last call was refused.
    pub refused: Option<Refused>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Refused {
    /// Parameters and arguments.
    Number(usize, usize),
    /// The first argument that does not fit.
    Position(usize),
}

pub fn eval(env: &Env, e: &E) -> R<V> {
    Ev::new(env).expr(e)
}

pub fn key_text(v: V) -> R<String> {
    match v {
        V::Str(s) => Ok(s),
        V::Bool(b) => Ok(b.to_string()),
        V::Num(n) => Ok(number::make(&n).to_string()),
        _ => Err(Er::Type),
    }
}

/// The text a value has in a template.
pub fn to_text(v: &V) -> String {
    match v {
        V::Null => "null".into(),
        V::Bool(b) => b.to_string(),
        V::Num(n) => number::make(n).to_string(),
        V::Str(s) => s.clone(),
        // Not defined by the specification: the formatted value.
        v => hcl::format::to_string(&v.real()).unwrap_or_default(),
    }
}

fn trim_left(s: &str) -> &str {
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if c == '\n' {
            return &s[i + 1..];
        }
        if c == '\r' {
            return if s[i + 1..].starts_with('\n') { &s[i + 2..] } else { &s[i..] };
        }
        if !c.is_whitespace() {
            return &s[i..];
        }
    }
    ""
}

fn trim_right(s: &str) -> &str {
    let mut end = s.len();
    for (i, c) in s.char_indices().rev() {
        if c == '\n' {
            let r = &s[..i];
            return r.strip_suffix('\r').unwrap_or(r);
        }
        if c == '\r' || !c.is_whitespace() {
            return &s[..end];
        }
        end = i;
    }
    ""
}

impl<'a> Ev<'a> {
    pub fn new(env: &'a Env) -> Ev<'a> {
        Ev { env, scopes: Vec::new(), log: Vec::new(), seen: Vec::new(), refused: None }
    }

    fn see(&mut self, k: &'static str) {
        if !self.seen.contains(&k) {
            self.seen.push(k);
        }
    }

    fn bool(&mut self, e: &E) -> R<bool> {
        match self.expr(e)? {
            V::Bool(b) => Ok(b),
            _ => Err(Er::Type),
        }
    }

    pub fn expr(&mut self, e: &E) -> R<V> {
        let v = self.expr_(e)?;
        self.see(kind(e));
        Ok(v)
    }

    fn expr_(&mut self, e: &E) -> R<V> {
        Ok(match e {
            E::Null => V::Null,
            E::Bool(b) => V::Bool(*b),
            E::Num(n) => V::Num(n.clone()),
            E::Str(s) => V::Str(s.clone()),
            E::Arr(v) => V::Arr(v.iter().map(|e| self.expr(e)).collect::<R<_>>()?),
            E::Obj(v) => {
                let mut o: Vec<(String, V)> = Vec::new();
                for (k, e) in v {
                    let k = match k {
                        K::Id(s) => s.clone(),
                        K::Ex(e) => key_text(self.expr(e)?)?,
                    };
                    let v = self.expr(e)?;
                    put(&mut o, k, v);
                }
                V::Obj(o)
            }
            E::Tpl(t) => self.unwrapped(&merge(t))?,
            E::Heredoc(h) => {
                let t = merge(&h.tpl);
                let t = if h.flush { merge(&dedented(&t)) } else { t };
                self.unwrapped(&t)?
            }
            E::Var(n) => match self.scopes.iter().rev().find(|(k, _)| k == n) {
                Some((_, v)) => v.clone(),
                None => self.env.vars.get(n).cloned().ok_or_else(|| Er::UndefVar(n.clone()))?,
            },
            E::Paren(e) => self.expr(e)?,
            E::Call(n, a, x) => {
                let f = self.env.fun(n).ok_or_else(|| Er::UndefFn(n.clone()))?;
                let mut args = Vec::new();
                for (i, e) in a.iter().enumerate() {
                    let v = self.expr(e)?;
                    if *x && i + 1 == a.len() {
                        match v {
                            V::Arr(v) => args.extend(v),
                            _ => return Err(Er::Type),
                        }
                    } else {
                        args.push(v);
                    }
                }
                if !f.fits(&args) {
                    self.refused = Some(f.refused(&args));
                    return Err(Er::Args(n.clone()));
                }
                self.log.push(CallRec { body: f.body, args: args.clone() });
                f.run(&args).map_err(|m| Er::Func(n.clone(), m))?
            }
            E::Cond(c) => {
                if self.bool(&c.0)? {
                    self.expr(&c.1)?
                } else {
                    self.expr(&c.2)?
                }
            }
            E::Un(o, e) => match (o, self.expr(e)?) {
                (Un::Not, V::Bool(b)) => V::Bool(!b),
                (Un::Neg, V::Num(n)) => V::Num(number::neg(&n)),
                _ => return Err(Er::Unary),
            },
            E::Bin(l, o, r) => {
                let l = self.expr(l)?;
                let r = self.expr(r)?;
                match (l, o, r) {
                    (l, Bin::Eq, r) => V::Bool(l == r),
                    (l, Bin::Ne, r) => V::Bool(l != r),
                    (V::Bool(a), Bin::And, V::Bool(b)) => V::Bool(a && b),
                    (V::Bool(a), Bin::Or, V::Bool(b)) => V::Bool(a || b),
                    (V::Num(a), Bin::Lt, V::Num(b)) => V::Bool(number::cmp(&a, &b).is_lt()),
                    (V::Num(a), Bin::Le, V::Num(b)) => V::Bool(number::cmp(&a, &b).is_le()),
                    (V::Num(a), Bin::Gt, V::Num(b)) => V::Bool(number::cmp(&a, &b).is_gt()),
                    (V::Num(a), Bin::Ge, V::Num(b)) => V::Bool(number::cmp(&a, &b).is_ge()),
                    (V::Num(a), Bin::Add | Bin::Sub | Bin::Mul | Bin::Div | Bin::Mod, V::Num(b)) => V::Num(number::arith(&a, *o, &b).ok_or(Er::Binary)?),
                    _ => return Err(Er::Binary),
                }
            }
            E::For(f) => self.for_expr(f)?,
            E::Trav(b, ops) => {
                let v = self.expr(b)?;
                self.ops(v, ops)?
            }
        })
    }

    fn ops(&mut self, v: V, ops: &[Op]) -> R<V> {
        let Some((op, rest)) = ops.split_first() else { return Ok(v) };
        match op {
            Op::Attr(n) => {
                let v = attr(v, n)?;
                self.ops(v, rest)
            }
            Op::Legacy(i) => {
                let v = elem(v, *i)?;
                self.ops(v, rest)
            }
            Op::Index(e) => {
                let i = self.expr(e)?;
                let v = match i {
                    V::Str(s) => attr(v, &s)?,
                    V::Num(N::U(i)) => elem(v, i)?,
                    _ => return Err(Er::Type),
                };
                self.ops(v, rest)
            }
            Op::FullSplat => self.splat(v, rest),
            Op::AttrSplat => {
                let n = rest.iter().take_while(|o| matches!(o, Op::Attr(_))).count();
                let v = self.splat(v, &rest[..n])?;
                self.ops(v, &rest[n..])
            }
        }
    }

    fn splat(&mut self, v: V, ops: &[Op]) -> R<V> {
        self.see("splat");
        Ok(V::Arr(match v {
            V::Null => vec![],
            V::Arr(a) => a.into_iter().map(|v| self.ops(v, ops)).collect::<R<_>>()?,
            v => vec![self.ops(v, ops)?],
        }))
    }

    fn items(&mut self, coll: &E) -> R<Vec<(V, V)>> {
        Ok(match self.expr(coll)? {
            V::Arr(a) => a.into_iter().enumerate().map(|(i, v)| (V::Num(N::U(i as u64)), v)).collect(),
            V::Obj(o) => o.into_iter().map(|(k, v)| (V::Str(k), v)).collect(),
            _ => return Err(Er::Type),
        })
    }

    fn scoped<X>(&mut self, key: Option<&String>, val: &str, item: (V, V), f: impl FnOnce(&mut Self) -> R<X>) -> R<X> {
        let n = self.scopes.len();
        if let Some(k) = key {
            self.scopes.push((k.clone(), item.0));
        }
        self.scopes.push((val.to_string(), item.1));
        let r = f(self);
        self.scopes.truncate(n);
        r
    }

    fn for_expr(&mut self, f: &ForE) -> R<V> {
        let items = self.items(&f.coll)?;
        let mut arr = Vec::new();
        let mut obj: Vec<(String, V)> = Vec::new();
        for item in items {
            self.scoped(f.key_var.as_ref(), &f.val_var, item, |ev| {
                if let Some(c) = &f.cond {
                    if !ev.bool(c)? {
                        ev.see("filtered");
                        return Ok(());
                    }
                }
                match &f.key {
                    None => arr.push(ev.expr(&f.val)?),
                    Some(k) => {
                        let k = key_text(ev.expr(k)?)?;
                        let v = ev.expr(&f.val)?;
                        if f.grouping {
                            ev.see("grouped");
                            match obj.iter_mut().find(|(o, _)| *o == k) {
                                Some((_, V::Arr(a))) => {
                                    ev.see("grouped-several");
                                    a.push(v)
                                }
                                _ => obj.push((k, V::Arr(vec![v]))),
                            }
                        } else if obj.iter().any(|(o, _)| *o == k) {
                            return Err(Er::KeyExists(k));
                        } else {
                            obj.push((k, v));
                        }
                    }
                }
                Ok(())
            })?;
        }
        Ok(if f.key.is_some() { V::Obj(obj) } else { V::Arr(arr) })
    }

    /// A template that is a single interpolation is the value of its expression.
    fn unwrapped(&mut self, t: &[T]) -> R<V> {
        if let [T::Interp(e, _)] = t {
            self.see("unwrapped");
            return self.expr(e);
        }
        Ok(V::Str(self.template(t)?))
    }

    pub fn template(&mut self, t: &[T]) -> R<String> {
        let mut out = String::new();
        self.tpl(&merge(t), false, false, &mut out)?;
        Ok(out)
    }

    /// `left`, `right`: whether the tags around this template strip.
    fn tpl(&mut self, ts: &[T], left: bool, right: bool, out: &mut String) -> R<()> {
        // Whether the element strips what comes before and after it.
        let starts = |t: &T| match t {
            T::Lit(_) => false,
            T::Interp(_, s) => s.0,
            T::If { s_if, .. } => s_if.0,
            T::For { s_for, .. } => s_for.0,
        };
        let ends = |t: &T| match t {
            T::Lit(_) => false,
            T::Interp(_, s) => s.1,
            T::If { s_end, .. } | T::For { s_end, .. } => s_end.1,
        };
        for (i, t) in ts.iter().enumerate() {
            match t {
                T::Lit(s) => {
                    let mut s = &s[..];
                    if if i == 0 { left } else { ends(&ts[i - 1]) } {
                        self.see("stripped");
                        s = trim_left(s);
                    }
                    if if i + 1 == ts.len() { right } else { starts(&ts[i + 1]) } {
                        self.see("stripped");
                        s = trim_right(s);
                    }
                    out.push_str(s);
                }
                T::Interp(e, _) => {
                    let v = self.expr(e)?;
                    out.push_str(&to_text(&v));
                }
                T::If { cond, then, els, s_if, s_else, s_end } => {
                    self.see("if");
                    if self.bool(cond)? {
                        let r = if els.is_some() { s_else.0 } else { s_end.0 };
                        self.tpl(then, s_if.1, r, out)?;
                    } else if let Some(e) = els {
                        self.see("else");
                        self.tpl(e, s_else.1, s_end.0, out)?;
                    }
                }
                T::For { key, val, coll, body, s_for, s_end } => {
                    for item in self.items(coll)? {
                        self.see("for-directive");
                        self.scoped(key.as_ref(), val, item, |ev| ev.tpl(body, s_for.1, s_end.0, out))?;
                    }
                }
            }
        }
        Ok(())
    }
}

fn put(o: &mut Vec<(String, V)>, k: String, v: V) {
    match o.iter_mut().find(|(l, _)| *l == k) {
        Some(e) => e.1 = v,
        None => o.push((k, v)),
    }
}

fn attr(v: V, k: &str) -> R<V> {
    match v {
        V::Obj(o) => o.into_iter().find(|(l, _)| l == k).map(|(_, v)| v).ok_or_else(|| Er::NoKey(k.to_string())),
        _ => Err(Er::Type),
    }
}

fn elem(v: V, i: u64) -> R<V> {
    match v {
        V::Arr(a) => usize::try_from(i).ok().and_then(|n| a.into_iter().nth(n)).ok_or(Er::Index(i)),
        _ => Err(Er::Type),
    }
}
