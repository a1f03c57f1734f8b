//! Generates expressions that mean something: typed generation over a known environment.

use crate::gen::{self, Gen};
use crate::model::*;
use crate::refeval::{to_text, Body, CallRec, Env, Fun, Ty, BODIES, P, V};
use crate::src::Src;
use hcl::eval::{Context, FuncArgs, FuncDef, ParamType};
use std::cell::RefCell;

thread_local! {
    static LOG: RefCell<Vec<CallRec>> = const { RefCell::new(Vec::new()) };
}

pub fn take_log() -> Vec<CallRec> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

fn log(body: Body, args: &FuncArgs) {
    LOG.with(|l| l.borrow_mut().push(CallRec { body, args: args.iter().map(V::of).collect() }));
}

fn f_list(args: FuncArgs) -> Result<hcl::Value, String> {
    log(Body::List, &args);
    Ok(hcl::Value::Array(args.into_values()))
}
fn f_first(args: FuncArgs) -> Result<hcl::Value, String> {
    log(Body::First, &args);
    Ok(args.first().cloned().unwrap_or(hcl::Value::Null))
}
fn f_count(args: FuncArgs) -> Result<hcl::Value, String> {
    log(Body::Count, &args);
    Ok(hcl::Value::from(args.len()))
}
fn f_split(args: FuncArgs) -> Result<hcl::Value, String> {
    log(Body::Split, &args);
    let p: Vec<hcl::Value> = args.positional_args().cloned().collect();
    let v: Vec<hcl::Value> = args.variadic_args().cloned().collect();
    Ok(hcl::Value::Array(vec![hcl::Value::Array(p), hcl::Value::Array(v)]))
}
fn f_fail(args: FuncArgs) -> Result<hcl::Value, String> {
    log(Body::Fail, &args);
    Err(format!("failed with {} arguments", args.len()))
}

fn param(p: &P) -> ParamType {
    match p {
        P::Any => ParamType::Any,
        P::Bool => ParamType::Bool,
        P::Num => ParamType::Number,
        P::Str => ParamType::String,
        P::Arr(p) => ParamType::array_of(param(p)),
        P::Obj(p) => ParamType::object_of(param(p)),
        P::OneOf(ps) => ParamType::one_of(ps.iter().map(param)),
        P::Nullable(p) => ParamType::nullable(param(p)),
    }
}

pub fn def(f: &Fun) -> FuncDef {
    let mut b = FuncDef::builder().params(f.params.iter().map(param));
    if let Some(v) = &f.variadic {
        b = b.variadic_param(param(v));
    }
    b.build(match f.body {
        Body::List => f_list,
        Body::First => f_first,
        Body::Count => f_count,
        Body::Split => f_split,
        Body::Fail => f_fail,
    })
}

pub fn fname(n: &[String]) -> hcl::expr::FuncName {
    let (last, ns) = n.split_last().unwrap();
    let id = |s: &String| hcl::Identifier::new(s.as_str()).unwrap();
    hcl::expr::FuncName::new(id(last)).with_namespace(ns.iter().map(id))
}

pub fn context(env: &Env) -> Context<'static> {
    let mut c = Context::new();
    for (k, v) in &env.vars {
        c.declare_var(k.as_str(), v.real());
    }
    for f in &env.funs {
        c.declare_func(fname(&f.name), def(f));
    }
    c
}

pub const VARS: [&str; 8] = ["a", "b", "c", "item", "x", "foo", "k", "été"];
const ATTRS: [&str; 7] = ["id", "name", "tags", "a", "b", "list", "for"];

pub fn value(s: &mut Src, depth: usize) -> V {
    let t = *s.pick(&[Ty::Str, Ty::Num, Ty::Bool, Ty::Arr, Ty::Obj, Ty::Arr, Ty::Obj, Ty::Null]);
    value_of(s, t, depth)
}

pub fn word(s: &mut Src) -> String {
    if s.chance(1, 5) {
        gen::text(s, 8)
    } else {
        (*s.pick(&["", "u", "id", "hello", "0", "1", " w ", "a", "name", "true", "éß"])).to_string()
    }
}

pub fn number(s: &mut Src) -> N {
    match s.weighted(&[8, 2, 1]) {
        0 => {
            let v = s.draw(9) as i128 - 2;
            N::from_int(if v < 0 { v } else { v }).unwrap()
        }
        1 => N::f(s.draw(40) as f64 / 4.0),
        _ => Gen::new(s).num(),
    }
}

pub fn value_of(s: &mut Src, t: Ty, depth: usize) -> V {
    match t {
        Ty::Null => V::Null,
        Ty::Bool => V::Bool(s.bool()),
        Ty::Num => V::Num(number(s)),
        Ty::Str => V::Str(word(s)),
        Ty::Arr => {
            let mut v = Vec::new();
            // Usually elements of one kind.
            let of = s.chance(2, 3).then(|| value(s, depth.saturating_sub(1)).ty());
            while depth > 0 && s.more(v.len(), 3, 5) {
                v.push(match (&of, v.first()) {
                    // Objects with the same keys.
                    (Some(_), Some(V::Obj(o))) if s.chance(4, 5) => {
                        let o: Vec<(String, V)> = V::Obj(o.clone()).into_obj();
                        V::Obj(o.into_iter().map(|(k, v)| { let t = v.ty(); (k, value_of(s, t, depth - 1)) }).collect())
                    }
                    (Some(t), _) => value_of(s, *t, depth - 1),
                    _ => value(s, depth - 1),
                });
            }
            V::Arr(v)
        }
        Ty::Obj => {
            let mut v: Vec<(String, V)> = Vec::new();
            while depth > 0 && s.more(v.len(), 3, 4) {
                let k = if s.chance(1, 8) { word(s) } else { (*s.pick(&ATTRS)).to_string() };
                if v.iter().any(|(l, _)| *l == k) {
                    continue;
                }
                v.push((k, value(s, depth - 1)));
            }
            V::Obj(v)
        }
    }
}

impl V {
    fn into_obj(self) -> Vec<(String, V)> {
        match self {
            V::Obj(o) => o,
            _ => vec![],
        }
    }
}

pub fn p_type(s: &mut Src, depth: usize) -> P {
    match s.weighted(&[3, 2, 2, 2, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
        0 => P::Any,
        1 => P::Bool,
        2 => P::Num,
        3 => P::Str,
        4 => P::Arr(Box::new(p_type(s, depth - 1))),
        5 => P::Obj(Box::new(p_type(s, depth - 1))),
        6 => {
            let n = s.range(1, 3);
            P::OneOf((0..n).map(|_| p_type(s, depth - 1)).collect())
        }
        _ => P::Nullable(Box::new(p_type(s, depth - 1))),
    }
}

/// A value the parameter admits.
pub fn fitting(s: &mut Src, p: &P, depth: usize) -> V {
    match p {
        P::Any => value(s, depth),
        P::Bool => V::Bool(s.bool()),
        P::Num => V::Num(number(s)),
        P::Str => V::Str(word(s)),
        P::Arr(p) => {
            let mut v = Vec::new();
            let n = if s.chance(1, 10) { s.range(0, 24) } else { 0 };
            while v.len() < n || s.more(v.len(), 2, 3) {
                v.push(fitting(s, p, depth.min(1)));
            }
            V::Arr(v)
        }
        P::Obj(p) => {
            let mut v = Vec::new();
            let n = if s.chance(1, 10) { s.range(0, 24) } else { 0 };
            while v.len() < n || s.more(v.len(), 2, 3) {
                v.push((format!("k{}", v.len()), fitting(s, p, depth)));
            }
            V::Obj(v)
        }
        P::OneOf(ps) => {
            let i = s.below(ps.len());
            fitting(s, &ps[i], depth)
        }
        P::Nullable(p) => {
            if s.chance(1, 3) {
                V::Null
            } else {
                fitting(s, p, depth)
            }
        }
    }
}

/// One member, at some depth, is something else.
fn spoiled(s: &mut Src, v: V) -> V {
    match v {
        V::Arr(mut v) if !v.is_empty() && s.chance(4, 5) => {
            let i = s.below(v.len());
            v[i] = spoiled(s, v[i].clone());
            V::Arr(v)
        }
        V::Obj(mut v) if !v.is_empty() && s.chance(4, 5) => {
            let i = s.below(v.len());
            v[i].1 = spoiled(s, v[i].1.clone());
            V::Obj(v)
        }
        _ => value(s, 1),
    }
}

pub fn fun(s: &mut Src, name: Vec<String>) -> Fun {
    let mut params = Vec::new();
    while s.more(params.len(), 1, 3) {
        params.push(p_type(s, 2));
    }
    let variadic = s.bool().then(|| p_type(s, 2));
    let body = BODIES[s.weighted(&[4, 3, 2, 3, 1])];
    Fun { name, params, variadic, body }
}

pub fn env(s: &mut Src) -> Env {
    let mut e = Env::default();
    for n in VARS {
        if s.chance(4, 5) {
            let v = value(s, 3);
            e.vars.insert(n.to_string(), v);
        }
    }
    // Two that suit every type, and some with a signature.
    e.funs.push(Fun { name: vec!["first".into()], params: vec![P::Any], variadic: Some(P::Any), body: Body::First });
    e.funs.push(Fun { name: vec!["count".into()], params: vec![], variadic: Some(P::Any), body: Body::Count });
    e.funs.push(Fun { name: vec!["list".into()], params: vec![], variadic: Some(P::Any), body: Body::List });
    for n in [vec!["f"], vec!["ns", "f"], vec!["ns", "sub", "g"], vec!["h"]] {
        if s.bool() {
            let f = fun(s, n.into_iter().map(String::from).collect());
            e.funs.push(f);
        }
    }
    e
}

/// Generates typed expressions.
pub struct Eg<'a, 'e> {
    pub s: &'a mut Src,
    pub env: &'e Env,
    /// Loop variables with a value they have in some iteration.
    scopes: Vec<(String, V)>,
    pub fuel: i64,
    /// Chance (in 1000) of something ill-typed or undefined.
    pub noise: u64,
    pub heredocs: bool,
}

const ANY: [Ty; 5] = [Ty::Str, Ty::Num, Ty::Bool, Ty::Arr, Ty::Obj];

pub fn prim(e: &E) -> bool {
    matches!(e, E::Null | E::Bool(_) | E::Str(_) | E::Arr(_) | E::Obj(_) | E::Tpl(_) | E::Var(_) | E::Paren(_) | E::Call(..) | E::For(_))
}

pub fn paren(e: E) -> E {
    E::Paren(Box::new(e))
}

/// `l op r` with parentheses where the operands need them.
pub fn bin(l: E, op: Bin, r: E) -> E {
    let prec = |e: &E| match e {
        E::Bin(_, o, _) => o.prec(),
        E::Cond(_) | E::Heredoc(_) => 0,
        _ => 9,
    };
    let l = if prec(&l) < op.prec() { paren(l) } else { l };
    let r = if prec(&r) <= op.prec() { paren(r) } else { r };
    E::Bin(Box::new(l), op, Box::new(r))
}

pub fn un(op: Un, e: E) -> E {
    let e = match &e {
        E::Bin(..) | E::Cond(_) | E::Heredoc(_) => paren(e),
        E::Num(n) if op == Un::Neg && !n.is_neg() => paren(e),
        _ => e,
    };
    E::Un(op, Box::new(e))
}

pub fn cond(c: E, t: E, f: E) -> E {
    let c = if matches!(c, E::Cond(_) | E::Heredoc(_)) { paren(c) } else { c };
    let t = if matches!(t, E::Heredoc(_)) { paren(t) } else { t };
    E::Cond(Box::new((c, t, f)))
}

pub fn trav(b: E, ops: Vec<Op>) -> E {
    if ops.is_empty() {
        return b;
    }
    match b {
        E::Trav(b, mut o) => {
            o.extend(ops);
            E::Trav(b, o)
        }
        b if prim(&b) && !matches!(b, E::Null | E::Bool(_)) => E::Trav(Box::new(b), ops),
        b => E::Trav(Box::new(paren(b)), ops),
    }
}

impl<'a, 'e> Eg<'a, 'e> {
    pub fn new(s: &'a mut Src, env: &'e Env) -> Eg<'a, 'e> {
        let fuel = 2 + s.size as i64 / 3;
        Eg { s, env, scopes: Vec::new(), fuel, noise: 12, heredocs: true }
    }

    fn take(&mut self) -> bool {
        self.fuel -= 1;
        self.fuel > 0
    }

    fn vars(&self) -> Vec<(String, V)> {
        let mut out: Vec<(String, V)> = Vec::new();
        for (k, v) in self.scopes.iter().rev() {
            if !out.iter().any(|(l, _)| l == k) {
                out.push((k.clone(), v.clone()));
            }
        }
        for (k, v) in &self.env.vars {
            if !out.iter().any(|(l, _)| l == k) {
                out.push((k.clone(), v.clone()));
            }
        }
        out
    }

    fn ident_key(k: &str) -> bool {
        hcl_primitives::ident::is_ident(k)
    }

    fn attr_op(&mut self, k: &str) -> Op {
        if Self::ident_key(k) && self.s.chance(3, 4) {
            Op::Attr(k.to_string())
        } else {
            let e = self.lift(&V::Str(k.to_string()));
            Op::Index(e)
        }
    }

    fn index_op(&mut self, i: usize) -> Op {
        if self.s.chance(1, 4) {
            Op::Legacy(i as u64)
        } else {
            let e = self.lift(&V::Num(N::U(i as u64)));
            Op::Index(e)
        }
    }

    /// An expression for a known value: a literal or something that has it.
    fn lift(&mut self, v: &V) -> E {
        if self.s.chance(1, 4) && self.take() {
            let vars = self.vars();
            let hits: Vec<&String> = vars.iter().filter(|(_, w)| w == v).map(|(k, _)| k).collect();
            if !hits.is_empty() {
                return E::Var((*self.s.pick(&hits)).clone());
            }
        }
        v.lit()
    }

    /// All ways to reach a value of the type from `v` in few steps.
    fn paths(v: &V, t: Option<Ty>, depth: usize, cur: &mut Vec<Step>, out: &mut Vec<(Vec<Step>, V)>) {
        if out.len() > 60 {
            return;
        }
        if !cur.is_empty() && t.map_or(true, |t| v.ty() == t) {
            out.push((cur.clone(), v.clone()));
        }
        if depth == 0 {
            return;
        }
        match v {
            V::Arr(a) => {
                for (i, x) in a.iter().enumerate() {
                    cur.push(Step::I(i));
                    Self::paths(x, t, depth - 1, cur, out);
                    cur.pop();
                }
            }
            V::Obj(o) => {
                for (k, x) in o {
                    cur.push(Step::K(k.clone()));
                    Self::paths(x, t, depth - 1, cur, out);
                    cur.pop();
                }
            }
            _ => {}
        }
    }

    fn steps(&mut self, st: &[Step]) -> Vec<Op> {
        st.iter()
            .map(|s| match s {
                Step::I(i) => self.index_op(*i),
                Step::K(k) => self.attr_op(k),
            })
            .collect()
    }

    /// A variable or a path into one with a value of the type, and that value.
    fn reach(&mut self, t: Option<Ty>) -> Option<(E, V)> {
        let vars = self.vars();
        let direct: Vec<&(String, V)> = vars.iter().filter(|(_, v)| t.map_or(true, |t| v.ty() == t)).collect();
        if !direct.is_empty() && self.s.chance(1, 2) {
            let (k, v) = (*self.s.pick(&direct)).clone();
            return Some((E::Var(k), v));
        }
        if vars.is_empty() {
            return None;
        }
        let (k, v) = self.s.pick(&vars).clone();
        let mut out = Vec::new();
        Self::paths(&v, t, 3, &mut Vec::new(), &mut out);
        if out.is_empty() {
            return direct.first().map(|(k, v)| (E::Var(k.clone()), v.clone()));
        }
        let (st, v) = self.s.pick(&out).clone();
        let ops = self.steps(&st);
        Some((trav(E::Var(k), ops), v))
    }

    pub fn any(&mut self) -> E {
        let t = *self.s.pick(&ANY);
        self.expr(t)
    }

    fn noise_expr(&mut self) -> E {
        match self.s.below(5) {
            0 => E::Var("undefined".into()),
            1 => E::Null,
            2 => {
                let b = self.any();
                trav(b, vec![Op::Attr("nope".into())])
            }
            3 => {
                let b = self.any();
                let i = self.any();
                trav(b, vec![Op::Index(i)])
            }
            _ => {
                let t = *self.s.pick(&ANY);
                self.leaf(t)
            }
        }
    }

    fn leaf(&mut self, t: Ty) -> E {
        if self.s.bool() {
            if let Some((e, _)) = self.reach(Some(t)) {
                return e;
            }
        }
        value_of(self.s, t, 2).lit()
    }

    pub fn expr(&mut self, t: Ty) -> E {
        let n = self.s.deep();
        if n > 0 {
            // The same value, if evaluated.
            let mut e = self.expr(t);
            for _ in 0..n {
                e = match self.s.below(6) {
                    0 => paren(e),
                    1 => trav(E::Arr(vec![e]), vec![Op::Index(E::Num(N::U(0)))]),
                    2 => trav(E::Obj(vec![(K::Id("k".into()), e)]), vec![Op::Attr("k".into())]),
                    3 => cond(E::Bool(true), e, E::Null),
                    4 => cond(E::Bool(false), E::Null, e),
                    _ => trav(E::Arr(vec![e]), vec![Op::Legacy(0)]),
                };
            }
            return e;
        }
        if self.s.draw(1000) >= 1000 - self.noise {
            return self.noise_expr();
        }
        if self.fuel <= 0 || self.s.chance(1, 4) {
            return self.leaf(t);
        }
        self.fuel -= 1;
        match self.s.weighted(&[12, 3, 1, 2, 2, 2, 1, 1]) {
            0 => self.special(t),
            7 => self.sig_call(),
            1 => {
                let c = self.expr(Ty::Bool);
                let (a, b) = (self.expr(t), if self.s.chance(1, 6) { self.noise_expr() } else { self.expr(t) });
                if self.s.bool() {
                    cond(c, a, b)
                } else {
                    cond(c, b, a)
                }
            }
            2 => {
                let e = self.expr(t);
                paren(e)
            }
            3 => {
                let e = self.expr(t);
                let mut args = vec![e];
                while self.s.more(args.len(), 1, 3) {
                    args.push(self.any());
                }
                E::Call(vec!["first".into()], args, false)
            }
            4 => {
                // Out of a collection made on the spot.
                let mut items: Vec<E> = Vec::new();
                let n = self.s.range(1, 3);
                for _ in 0..n {
                    items.push(self.expr(t));
                }
                let i = self.s.below(n);
                if self.s.bool() {
                    let op = self.index_op(i);
                    trav(E::Arr(items), vec![op])
                } else {
                    let keys = ["a", "b", "c d"];
                    let op = self.attr_op(keys[i]);
                    trav(E::Obj(items.into_iter().enumerate().map(|(i, e)| (if i == 2 { K::Ex(E::Str(keys[i].into())) } else { K::Id(keys[i].into()) }, e)).collect()), vec![op])
                }
            }
            5 => match self.reach(Some(t)) {
                Some((e, _)) => e,
                None => self.leaf(t),
            },
            _ => {
                // Interpolation unwrapping.
                let e = self.expr(t);
                E::Tpl(vec![T::Interp(e, gen::strip(self.s))])
            }
        }
    }

    /// A call of one of the functions, usually with arguments that fit.
    pub fn sig_call(&mut self) -> E {
        let env = self.env;
        let f = self.s.pick(&env.funs);
        self.call_of(f, 2)
    }

    pub fn call_of(&mut self, f: &Fun, depth: usize) -> E {
        let mut args: Vec<E> = Vec::new();
        for p in &f.params {
            let e = self.arg(Some(p), depth);
            args.push(e);
        }
        let want_more = f.variadic.is_some() || self.s.chance(1, 10);
        while want_more && self.s.more(args.len(), 1, f.params.len() + 3) {
            let e = self.arg(f.variadic.as_ref(), depth);
            args.push(e);
        }
        if self.s.chance(1, 12) {
            args.pop();
        }
        let mut expand = false;
        if self.s.chance(1, 3) {
            // The last ones as an array.
            expand = true;
            let n = self.s.below(args.len() + 1);
            let tail = args.split_off(n);
            if self.s.chance(1, 12) {
                let e = self.any();
                args.push(e);
            } else {
                args.push(E::Arr(tail));
            }
        }
        E::Call(f.name.clone(), args, expand)
    }

    fn arg(&mut self, p: Option<&P>, depth: usize) -> E {
        match p {
            Some(p) if !self.s.chance(1, 10) => {
                let mut v = fitting(self.s, p, depth);
                if self.s.chance(1, 6) {
                    v = spoiled(self.s, v);
                    return self.lift(&v);
                }
                if self.s.bool() {
                    self.expr(v.ty())
                } else {
                    self.lift(&v)
                }
            }
            _ => self.any(),
        }
    }

    fn special(&mut self, t: Ty) -> E {
        match t {
            Ty::Null => E::Null,
            Ty::Bool => match self.s.below(6) {
                0 => {
                    let e = self.expr(Ty::Bool);
                    un(Un::Not, e)
                }
                1 | 2 => {
                    let op = *self.s.pick(&[Bin::Lt, Bin::Le, Bin::Gt, Bin::Ge]);
                    let (l, r) = self.pair(Ty::Num);
                    bin(l, op, r)
                }
                3 => {
                    let op = *self.s.pick(&[Bin::Eq, Bin::Ne]);
                    let t = *self.s.pick(&ANY);
                    let (l, r) = if self.s.chance(1, 4) { (self.any(), self.any()) } else { self.pair(t) };
                    bin(l, op, r)
                }
                _ => {
                    let op = *self.s.pick(&[Bin::And, Bin::Or]);
                    let (l, r) = self.pair(Ty::Bool);
                    bin(l, op, r)
                }
            },
            Ty::Num => match self.s.below(6) {
                0 => {
                    let e = self.expr(Ty::Num);
                    un(Un::Neg, e)
                }
                1 => {
                    let e = self.any();
                    E::Call(vec!["count".into()], vec![e], false)
                }
                _ => {
                    let op = *self.s.pick(&[Bin::Add, Bin::Sub, Bin::Mul, Bin::Div, Bin::Mod]);
                    let (l, r) = self.pair(Ty::Num);
                    bin(l, op, r)
                }
            },
            Ty::Str => {
                let heredoc = self.heredocs && self.s.chance(1, 8);
                if heredoc {
                    // Heredocs cannot be followed by anything on their last line.
                    let h = self.heredoc();
                    return paren(E::Heredoc(Box::new(h)));
                }
                E::Tpl(self.template(false, 4))
            }
            Ty::Arr => match self.s.below(4) {
                0 => {
                    let mut v = Vec::new();
                    while self.s.more(v.len(), 2, 4) {
                        v.push(self.any());
                    }
                    E::Arr(v)
                }
                1 => self.splat(),
                2 => {
                    let expand = self.s.chance(1, 2);
                    let mut v = Vec::new();
                    while self.s.more(v.len(), 1, 3) {
                        v.push(self.any());
                    }
                    if expand {
                        v.push(self.expr(Ty::Arr));
                    }
                    E::Call(vec!["list".into()], v, expand)
                }
                _ => self.for_expr(false),
            },
            Ty::Obj => match self.s.below(3) {
                0 => {
                    let mut v: Vec<(K, E)> = Vec::new();
                    while self.s.more(v.len(), 2, 4) {
                        // The same key by other means.
                        let same = match v.first() {
                            Some((K::Id(k) | K::Ex(E::Str(k)), _)) if self.s.chance(1, 8) => Some(k.clone()),
                            _ => None,
                        };
                        let k = match self.s.below(6) {
                            _ if same.is_some() => {
                                let k = E::Str(same.unwrap_or_default());
                                K::Ex(match self.s.below(3) {
                                    0 => E::Tpl(vec![T::Interp(k, (false, false))]),
                                    1 => E::Paren(Box::new(E::Cond(Box::new((E::Bool(true), k, E::Str("other".into())))))),
                                    _ => E::Paren(Box::new(E::Tpl(vec![T::Interp(k, (false, false))]))),
                                })
                            }
                            0 => K::Ex(E::Str(word(self.s))),
                            1 => {
                                let t = *self.s.pick(&[Ty::Str, Ty::Num, Ty::Bool]);
                                let e = self.expr(t);
                                K::Ex(paren(e))
                            }
                            2 => K::Ex(E::Num(number(self.s))),
                            3 => K::Ex(E::Tpl(self.template(false, 3))),
                            _ => K::Id((*self.s.pick(&ATTRS[..6])).into()),
                        };
                        // Two keys that are written alike are another matter.
                        if v.iter().any(|(l, _)| norm_key(l) == norm_key(&k)) {
                            continue;
                        }
                        let e = self.any();
                        v.push((k, e));
                    }
                    E::Obj(v)
                }
                _ => self.for_expr(true),
            },
        }
    }

    /// Two expressions of the type, often with related values.
    fn pair(&mut self, t: Ty) -> (E, E) {
        let l = self.expr(t);
        if self.s.chance(1, 6) {
            return (l.clone(), l);
        }
        let r = self.expr(t);
        (l, r)
    }

    fn splat(&mut self) -> E {
        let t = if self.s.chance(4, 5) { Ty::Arr } else { *self.s.pick(&ANY) };
        let base = if self.s.chance(3, 4) { self.reach(Some(t)) } else { None };
        let (e, v) = match base {
            Some(x) => x,
            None => {
                let v = value_of(self.s, t, 3);
                (v.lit(), v)
            }
        };
        let full = self.s.bool();
        let mut ops = vec![if full { Op::FullSplat } else { Op::AttrSplat }];
        let rep = match &v {
            V::Arr(a) => a.first().cloned().unwrap_or(V::Null),
            v => v.clone(),
        };
        // Steps all elements support.
        let all = |st: &[Step]| match &v {
            V::Arr(a) => a.iter().all(|x| walk_steps(x, st).is_some()),
            v => walk_steps(v, st).is_some(),
        };
        let mut out = Vec::new();
        Self::paths(&rep, None, 2, &mut Vec::new(), &mut out);
        out.retain(|(st, _)| all(st));
        if !full {
            out.retain(|(st, _)| st.iter().all(|s| matches!(s, Step::K(k) if Self::ident_key(k))));
        }
        if !out.is_empty() && self.s.chance(4, 5) {
            let (st, _) = self.s.pick(&out).clone();
            if full {
                ops.extend(self.steps(&st));
            } else {
                ops.extend(st.iter().map(|s| match s {
                    Step::K(k) => Op::Attr(k.clone()),
                    Step::I(_) => unreachable!(),
                }));
            }
        }
        // What comes after an attribute splat applies to the list, after a full splat to the
        // elements.
        if self.s.chance(1, 4) {
            let op = match self.s.below(4) {
                0 => Op::AttrSplat,
                1 => Op::FullSplat,
                2 => Op::Index(E::Num(N::U(0))),
                _ => Op::Legacy(self.s.draw(3)),
            };
            ops.push(op);
        }
        trav(e, ops)
    }

    fn loop_vars(&mut self) -> (Option<String>, String) {
        const L: [&str; 6] = ["v", "k", "i", "item", "a", "x"];
        let key = self.s.bool().then(|| (*self.s.pick(&L)).to_string());
        (key, (*self.s.pick(&L)).to_string())
    }

    /// Something to iterate and a key and value out of it.
    fn coll(&mut self) -> (E, V, V) {
        let t = if self.s.bool() { Ty::Arr } else { Ty::Obj };
        let (e, v) = match if self.s.chance(2, 3) { self.reach(Some(t)) } else { None } {
            Some(x) => x,
            None => {
                let v = value_of(self.s, t, 2);
                (v.lit(), v)
            }
        };
        let (k, v) = match v {
            V::Arr(a) => (V::Num(N::U(0)), a.into_iter().next().unwrap_or(V::Str("e".into()))),
            V::Obj(o) => o.into_iter().next().map_or((V::Str("k".into()), V::Str("e".into())), |(k, v)| (V::Str(k), v)),
            _ => unreachable!(),
        };
        (e, k, v)
    }

    fn scoped<X>(&mut self, key: &Option<String>, val: &str, k: V, v: V, f: impl FnOnce(&mut Self) -> X) -> X {
        let n = self.scopes.len();
        if let Some(key) = key {
            self.scopes.push((key.clone(), k));
        }
        self.scopes.push((val.to_string(), v));
        let x = f(self);
        self.scopes.truncate(n);
        x
    }

    fn for_expr(&mut self, obj: bool) -> E {
        let (key_var, val_var) = self.loop_vars();
        let (coll, k, v) = self.coll();
        let (key_var_, val_var_) = (key_var.clone(), val_var.clone());
        let (key, val, cnd, grouping) = self.scoped(&key_var_, &val_var_, k, v, |g| {
            let key = obj.then(|| match (&key_var, g.s.below(3)) {
                (Some(k), 0 | 1) => E::Var(k.clone()),
                _ => {
                    let t = *g.s.pick(&[Ty::Str, Ty::Str, Ty::Num, Ty::Bool]);
                    g.expr(t)
                }
            });
            let val = if g.s.bool() { E::Var(val_var.clone()) } else { g.any() };
            let cnd = g.s.chance(1, 3).then(|| g.expr(Ty::Bool));
            (key, val, cnd, obj && g.s.chance(1, 2))
        });
        E::For(Box::new(ForE { key_var, val_var, coll, key, val, grouping, cond: cnd }))
    }

    /// `lines`: written in a heredoc.
    pub fn template(&mut self, lines: bool, max: usize) -> Vec<T> {
        let mut ts: Vec<T> = Vec::new();
        let mut n = 0;
        while self.s.more(n, 3, max) {
            n += 1;
            let t = match self.s.weighted(&[5, 4, 2, 2]) {
                1 => {
                    let t = *self.s.pick(&[Ty::Str, Ty::Str, Ty::Num, Ty::Bool, Ty::Arr, Ty::Null]);
                    T::Interp(self.expr(t), gen::strip(self.s))
                }
                2 if self.take() => {
                    let cond = self.expr(Ty::Bool);
                    let then = self.template(lines, max - 1);
                    let els = self.s.bool().then(|| self.template(lines, max - 1));
                    let s_else = if els.is_some() { gen::strip(self.s) } else { (false, false) };
                    T::If { cond, then: end(then, lines), els: els.map(|e| end(e, lines)), s_if: gen::strip(self.s), s_else, s_end: gen::strip(self.s) }
                }
                3 if self.take() => {
                    let (key, val) = self.loop_vars();
                    let (coll, k, v) = self.coll();
                    let (key_, val_) = (key.clone(), val.clone());
                    let body = self.scoped(&key_, &val_, k, v, |g| g.template(lines, max - 1));
                    T::For { key, val, coll, body: end(body, lines), s_for: gen::strip(self.s), s_end: gen::strip(self.s) }
                }
                _ => T::Lit(self.lit(lines)),
            };
            if matches!(&t, T::Lit(l) if l.is_empty()) {
                continue;
            }
            if let Some(T::Lit(l)) = ts.last() {
                if lines && gen::clash(l, &t) {
                    ts.push(T::Lit(" ".into()));
                }
            }
            ts.push(t);
        }
        merge(&ts)
    }

    /// Text with the kinds of space that matter to strip markers.
    fn lit(&mut self, lines: bool) -> String {
        let mut out = String::new();
        let mut n = 0;
        while self.s.more(n, 4, 10) {
            n += 1;
            match self.s.weighted(&[4, 3, 3, 1, 1, 1]) {
                0 => out.push_str(self.s.pick(&["a", "foo", "b,", "é", "-", "."])),
                1 => out.push(' '),
                2 => out.push('\n'),
                3 => out.push_str(self.s.pick(&["\t", "\u{a0}", "\u{2003}", "\u{b}", "\u{c}", "\u{200b}"])),
                4 => out.push_str(self.s.pick(&["\r\n", "\r", "\n\r", "\r\r\n"])),
                _ => out.push_str(self.s.pick(&["$", "%", "$$", "${", "%{", "$${", "~}", "\"", "\\"])),
            }
        }
        if lines {
            out = out.replace('\r', "");
        }
        out
    }

    pub fn heredoc(&mut self) -> Hd {
        let flush = self.s.bool();
        let mut tpl = self.template(true, 4);
        if !tpl.is_empty() {
            tpl.push(T::Lit("\n".into()));
        }
        let mut tpl = merge(&tpl);
        if flush && self.s.chance(3, 4) {
            tpl = gen::indent_all(&tpl, self.s.range(1, 4));
        }
        Hd { delim: "EOT".into(), flush, tpl }
    }

    /// A body whose attributes all have something to evaluate.
    pub fn body(&mut self, depth: usize) -> Vec<S> {
        let mut out: Vec<S> = Vec::new();
        let mut keys = Vec::new();
        while self.s.more(out.len(), 3, 6) {
            if depth > 0 && self.s.chance(1, 3) {
                let mut labels = Vec::new();
                while self.s.more(labels.len(), 1, 2) {
                    labels.push(if self.s.bool() { L::Id("lbl".into()) } else { L::Str(word(self.s)) });
                }
                let body = self.body(depth - 1);
                out.push(S::Block(Blk { ident: (*self.s.pick(&["blk", "res"])).into(), labels, body, oneline: false }));
            } else {
                let k = (*self.s.pick(&["p", "q", "r", "s", "t", "u", "v"])).to_string();
                if keys.contains(&k) {
                    continue;
                }
                keys.push(k.clone());
                self.fuel = self.fuel.max(4);
                out.push(S::Attr(k, self.any()));
            }
        }
        out
    }
}

fn end(mut ts: Vec<T>, lines: bool) -> Vec<T> {
    if lines && matches!(ts.last(), Some(T::Lit(l)) if l.ends_with('%')) {
        ts.push(T::Lit(".".into()));
    }
    merge(&ts)
}

#[derive(Clone, Debug)]
pub enum Step {
    I(usize),
    K(String),
}

fn walk_steps<'v>(v: &'v V, st: &[Step]) -> Option<&'v V> {
    let Some((s, rest)) = st.split_first() else { return Some(v) };
    match (s, v) {
        (Step::I(i), V::Arr(a)) => walk_steps(a.get(*i)?, rest),
        (Step::K(k), V::Obj(o)) => walk_steps(&o.iter().find(|(l, _)| l == k)?.1, rest),
        _ => None,
    }
}

/// Whether the text of a value may depend on how collections are formatted.
pub fn plain_text(v: &V) -> Option<String> {
    match v {
        V::Arr(_) | V::Obj(_) => None,
        v => Some(to_text(v)),
    }
}
