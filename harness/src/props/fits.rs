//! C23: reading data as types that may not fit.

use crate::dyns::{self, De, Dv, Sh, Var};
use crate::engine::{no_panic, Case, Fail, Prop, Res, Test};
use crate::model::N;
use crate::props::mapping::{body_bad_key, body_equal_keys, document, of_json};
use crate::props::t;
use crate::refeval::V;
use crate::src::Src;
use crate::{ensure, fail};
use serde::de::{DeserializeSeed, IntoDeserializer};

pub fn add(p: &mut Vec<Prop>, ts: &mut Vec<Test>) {
    p.push(Prop {
        id: "C23",
        rule: "data and a type of at least four nodes each, where the type fits or is one or two changes away from it",
    });
    ts.push(t("C23", "value", 120_000, 1_200_000, c23_value));
    ts.push(t("C23", "document", 40_000, 400_000, c23_document));
}

// --- The reference --------------------------------------------------------------------------------

/// What reading gives.
#[derive(Clone, Debug, PartialEq)]
enum Fit {
    Yes(Dv),
    No,
    /// Not specified.
    Open,
}

#[derive(Clone, Copy, PartialEq)]
enum Form {
    /// Plain data.
    Value,
    /// Expressions, whose fields can be read as well, and everything of which has a text.
    Expr,
    Json,
}

use Fit::{No, Open, Yes};

impl Fit {
    fn map(self, f: impl FnOnce(Dv) -> Dv) -> Fit {
        match self {
            Yes(d) => Yes(f(d)),
            x => x,
        }
    }
}

/// All or nothing. Something that certainly does not fit decides.
fn all(l: Vec<Fit>) -> Fit {
    if l.contains(&No) {
        return No;
    }
    let mut out = Vec::new();
    for f in l {
        match f {
            Yes(d) => out.push(d),
            f => return f,
        }
    }
    Yes(Dv::Seq(out))
}

/// A string that is certainly no expression.
fn plain(s: &str) -> bool {
    !s.is_empty() && !s.contains("${") && !s.contains("%{") && !s.contains('\n')
}

fn fit(sh: &Sh, v: &V, form: Form) -> Fit {
    let opaque = form == Form::Expr && matches!(v, V::Str(s) if !plain(s));
    match (sh, v) {
        (Sh::Ignored, _) => Yes(Dv::Unit),
        (Sh::Unit | Sh::UnitStruct(_), V::Null) => Yes(Dv::Unit),
        (Sh::Unit | Sh::UnitStruct(_), _) => No,
        (Sh::Bool, V::Bool(b)) => Yes(Dv::Bool(*b)),
        (Sh::Bool, _) => No,
        (Sh::I(b), V::Num(n)) => match n.int() {
            Some(i) if *b == 128 || (i >= -(1i128 << (b - 1)) && i < 1i128 << (b - 1)) => Yes(Dv::I(i)),
            _ => No,
        },
        (Sh::U(b), V::Num(n)) => match n.int() {
            Some(i) if i >= 0 && (*b == 128 || i < 1i128 << b) => Yes(Dv::U(i as u128)),
            _ => No,
        },
        (Sh::F64, V::Num(n)) => Yes(Dv::F(n.int().map_or(n.to_f64(), |i| i as f64))),
        (Sh::F32, V::Num(n)) => Yes(Dv::F(f64::from(n.int().map_or(n.to_f64() as f32, |i| i as f32)))),
        (Sh::I(_) | Sh::U(_) | Sh::F32 | Sh::F64, _) => No,
        (Sh::Char, V::Str(s)) => {
            let mut it = s.chars();
            match (it.next(), it.next()) {
                (Some(c), None) => Yes(Dv::Char(c)),
                _ => No,
            }
        }
        (Sh::Char, _) => No,
        (Sh::Str, V::Str(s)) => Yes(Dv::Str(s.clone())),
        (Sh::Str, _) if form == Form::Expr => Open,
        (Sh::Str, _) => No,
        (Sh::Bytes, V::Str(_)) if opaque => Open,
        (Sh::Bytes, V::Str(s)) => Yes(Dv::Bytes(s.as_bytes().to_vec())),
        (Sh::Bytes, V::Arr(a)) => {
            let l: Option<Vec<u8>> = a.iter().map(|v| if let V::Num(n) = v { n.int().and_then(|i| u8::try_from(i).ok()) } else { None }).collect();
            l.map_or(No, |l| Yes(Dv::Bytes(l)))
        }
        (Sh::Bytes, _) => No,
        (Sh::Opt(_), V::Null) => Yes(Dv::None),
        (Sh::Opt(t), v) => fit(t, v, form).map(|d| Dv::Some(Box::new(d))),
        (Sh::New(_, t), v) => fit(t, v, form),
        (Sh::Seq(t), V::Arr(a)) => all(a.iter().map(|v| fit(t, v, form)).collect()),
        (Sh::Seq(_), _) => No,
        (Sh::Tup(ts) | Sh::TupS(_, ts) | Sh::Struct(_, _, ts), V::Arr(a)) => tuple(ts, a, form),
        (Sh::Tup(_) | Sh::TupS(..), _) => No,
        (Sh::Struct(_, fs, ts), V::Obj(o)) => fields(fs, ts, o, form),
        (Sh::Map(_, t), V::Obj(o)) => {
            let l: Vec<Fit> = o.iter().map(|(_, v)| fit(t, v, form)).collect();
            match all(l) {
                Yes(Dv::Seq(l)) => Yes(Dv::Map(o.iter().map(|(k, _)| Dv::Str(k.clone())).zip(l).collect())),
                f => f,
            }
        }
        (Sh::Struct(..) | Sh::Map(..) | Sh::Enum(..), V::Str(_)) if opaque => Open,
        (Sh::Struct(..) | Sh::Map(..), _) => No,
        (Sh::Enum(_, names, vars), V::Str(s)) => match names.iter().position(|n| n == s) {
            Some(i) if vars[i] == Var::Unit => Yes(Dv::Var(i, Box::new(Dv::Unit))),
            _ => No,
        },
        (Sh::Enum(_, names, vars), V::Obj(o)) => {
            let [(k, v)] = &o[..] else { return No };
            let Some(i) = names.iter().position(|n| n == k) else { return No };
            let f = match (&vars[i], v) {
                // `{"A": null}`
                (Var::Unit, V::Null) => Open,
                (Var::Unit, _) => No,
                (Var::New(t), v) => fit(t, v, form),
                (Var::Tup(_), V::Arr(a)) if form == Form::Json && a.is_empty() => Open,
                (Var::Tup(ts), V::Arr(a)) => tuple(ts, a, form),
                (Var::Tup(_), _) => No,
                (Var::Struct(fs, ts), V::Obj(o)) => fields(fs, ts, o, form),
                (Var::Struct(..), V::Arr(_)) => Open,
                (Var::Struct(..), V::Str(s)) if form == Form::Expr && !plain(s) => Open,
                (Var::Struct(..), _) => No,
            };
            f.map(|d| Dv::Var(i, Box::new(d)))
        }
        (Sh::Enum(..), _) => No,
        (Sh::Block(_) | Sh::Labeled(_) | Sh::Node(_), _) => Open,
    }
}

fn tuple(ts: &[Sh], a: &[V], form: Form) -> Fit {
    if ts.len() != a.len() {
        return No;
    }
    all(ts.iter().zip(a).map(|(t, v)| fit(t, v, form)).collect())
}

fn fields(fs: &[&str], ts: &[Sh], o: &[(String, V)], form: Form) -> Fit {
    all(fs
        .iter()
        .zip(ts)
        .map(|(f, t)| match o.iter().find(|(k, _)| k == f) {
            Some((_, v)) => fit(t, v, form),
            None if matches!(t, Sh::Opt(_)) => Yes(Dv::None),
            None => No,
        })
        .collect())
}

// --- Generation -----------------------------------------------------------------------------------

struct Shapes<'a> {
    s: &'a mut Src,
    /// One in so many nodes of the shape is something else.
    wrong: u64,
    changes: usize,
}

const SCALARS: [Sh; 19] = [
    Sh::Unit,
    Sh::UnitStruct("U"),
    Sh::Bool,
    Sh::I(8),
    Sh::I(16),
    Sh::I(32),
    Sh::I(64),
    Sh::I(128),
    Sh::U(8),
    Sh::U(16),
    Sh::U(32),
    Sh::U(64),
    Sh::U(128),
    Sh::F32,
    Sh::F64,
    Sh::Char,
    Sh::Str,
    Sh::Bytes,
    Sh::Ignored,
];

impl Shapes<'_> {
    fn oops(&mut self) -> bool {
        let x = self.wrong > 0 && self.s.chance(1, self.wrong);
        self.changes += usize::from(x);
        x
    }

    /// Any shape of that kind.
    fn other(&mut self) -> Sh {
        match self.s.below(8) {
            0 => Sh::Seq(Box::new(self.scalar())),
            1 => Sh::Map(Box::new(Sh::Str), Box::new(self.scalar())),
            2 => Sh::Tup(vec![self.scalar()]),
            3 => Sh::Struct("S", dyns::intern_list(&["a"]), vec![self.scalar()]),
            4 => Sh::Enum("E", dyns::intern_list(&["a", "b"]), vec![Var::Unit, Var::New(self.scalar())]),
            _ => self.scalar(),
        }
    }

    fn scalar(&mut self) -> Sh {
        self.s.pick(&SCALARS).clone()
    }

    fn shape(&mut self, v: &V) -> Sh {
        if self.oops() {
            return self.other();
        }
        match self.s.below(24) {
            23 | 22 => return Sh::Opt(Box::new(self.shape(v))),
            21 => return Sh::New("N", Box::new(self.shape(v))),
            20 => return Sh::Ignored,
            _ => {}
        }
        match v {
            V::Null => match self.s.below(4) {
                0 => Sh::Unit,
                1 => Sh::UnitStruct("U"),
                _ => Sh::Opt(Box::new(self.scalar())),
            },
            V::Bool(_) => Sh::Bool,
            V::Num(n) => match n.int() {
                // Sometimes too small.
                Some(_) => self.s.pick(&[Sh::I(8), Sh::U(8), Sh::I(16), Sh::U(16), Sh::I(32), Sh::U(32), Sh::I(64), Sh::U(64), Sh::I(64), Sh::I(128), Sh::U(128), Sh::F64, Sh::F32]).clone(),
                None => self.s.pick(&[Sh::F64, Sh::F64, Sh::F32, Sh::I(64)]).clone(),
            },
            V::Str(t) => match self.s.below(6) {
                0 => Sh::Char,
                1 => Sh::Bytes,
                2 => self.enumeration(t, &V::Null, true),
                _ => Sh::Str,
            },
            V::Arr(l) => match self.s.below(8) {
                0 => Sh::Bytes,
                1 | 2 => {
                    let t = match l.first() {
                        Some(v) => self.shape(v),
                        None => self.other(),
                    };
                    Sh::Seq(Box::new(t))
                }
                3 => {
                    let ts = self.elements(l);
                    let fs: Vec<&'static str> = (0..ts.len()).map(|i| dyns::intern(&format!("f{i}"))).collect();
                    Sh::Struct("S", dyns::intern_list(&fs), ts)
                }
                4 | 5 => Sh::TupS("T", self.elements(l)),
                _ => Sh::Tup(self.elements(l)),
            },
            V::Obj(o) => match self.s.below(8) {
                0 | 1 => {
                    let t = match o.first() {
                        Some((_, v)) => self.shape(v),
                        None => self.other(),
                    };
                    let t = if self.s.bool() { Sh::Ignored } else { t };
                    Sh::Map(Box::new(Sh::Str), Box::new(t))
                }
                2 | 3 if !o.is_empty() && (o.len() == 1 || self.s.chance(1, 3)) => {
                    let i = self.s.below(o.len());
                    let (k, v) = &o[i];
                    self.enumeration(k, v, false)
                }
                _ => {
                    let (fs, ts) = self.members(o);
                    Sh::Struct("S", fs, ts)
                }
            },
        }
    }

    fn elements(&mut self, l: &[V]) -> Vec<Sh> {
        let mut ts: Vec<Sh> = l.iter().map(|v| self.shape(v)).collect();
        if self.oops() {
            if self.s.bool() && !ts.is_empty() {
                let i = self.s.below(ts.len());
                ts.remove(if self.s.bool() { ts.len() - 1 } else { i });
            } else {
                let t = self.other();
                ts.push(t);
            }
        }
        ts
    }

    fn members(&mut self, o: &[(String, V)]) -> (&'static [&'static str], Vec<Sh>) {
        let (mut fs, mut ts) = (vec![], vec![]);
        for (k, v) in o {
            // Fields the type does not know are skipped.
            if self.s.chance(1, 10) {
                continue;
            }
            fs.push(dyns::intern(k));
            ts.push(self.shape(v));
        }
        if self.s.chance(1, 8) && !fs.contains(&"missing") && !o.iter().any(|(k, _)| k == "missing") {
            let i = self.s.below(fs.len() + 1);
            let t = self.other();
            let t = if self.oops() { t } else { Sh::Opt(Box::new(t)) };
            fs.insert(i, "missing");
            ts.insert(i, t);
        }
        if fs.len() >= 2 && self.s.chance(1, 6) {
            let i = self.s.below(fs.len() - 1);
            fs.swap(i, i + 1);
            ts.swap(i, i + 1);
        }
        (dyns::intern_list(&fs), ts)
    }

    fn enumeration(&mut self, name: &str, v: &V, unit: bool) -> Sh {
        let var = if unit != self.oops() {
            Var::Unit
        } else {
            match v {
                V::Arr(l) if self.s.bool() => Var::Tup(self.elements(l)),
                V::Obj(o) if self.s.bool() => {
                    let (fs, ts) = self.members(o);
                    Var::Struct(fs, ts)
                }
                v if self.s.chance(1, 12) => Var::Tup(vec![self.shape(v)]),
                v => Var::New(self.shape(v)),
            }
        };
        let mut l: Vec<(&'static str, Var)> = vec![(dyns::intern(name), var)];
        for n in ["other", "V"] {
            if n != name && self.s.bool() {
                let v = match self.s.below(3) {
                    0 => Var::Unit,
                    1 => Var::New(self.other()),
                    _ => Var::Tup(vec![self.scalar(), self.scalar()]),
                };
                let i = self.s.below(l.len() + 1);
                l.insert(i, (n, v));
            }
        }
        if self.oops() {
            l.retain(|(n, _)| *n != name);
        }
        let names: Vec<&'static str> = l.iter().map(|(n, _)| *n).collect();
        Sh::Enum("E", dyns::intern_list(&names), l.into_iter().map(|(_, v)| v).collect())
    }
}

fn shape(s: &mut Src, v: &V) -> (Sh, usize) {
    let wrong = *s.pick(&[0, 6, 15, 40]);
    let mut g = Shapes { s, wrong, changes: 0 };
    let t = g.shape(v);
    (t, g.changes)
}

const KEYS: [&str; 10] = ["a", "b", "c", "V", "other", "type", "a b", "", "é", "for"];
const TEXTS: [&str; 14] = ["a", "V", "", "x y", "é", "\u{1F600}", "other", "${a}", "line\nline", "null", "true", "1", "\"", "a"];

fn data(s: &mut Src, depth: usize) -> V {
    let n = if depth == 0 { 5 } else { 9 };
    match s.below(n) {
        0 => V::Null,
        1 => V::Bool(s.bool()),
        2 => {
            let edge = *s.pick(&[0i128, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32769, 65535, 65536, 1 << 31, -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 1 << 53]);
            V::Num(N::from_int(edge).unwrap_or(N::U(0)))
        }
        3 => V::Num(N::f(*s.pick(&[0.5, 1.0, -2.0, 1e300, 1e-7, 256.0, 3.25]))),
        4 => V::Str(s.pick(&TEXTS).to_string()),
        5 | 6 => {
            let same = s.bool();
            let n = s.below(4);
            let first = data(s, depth - 1);
            V::Arr((0..n).map(|_| if same { first.clone() } else { data(s, depth - 1) }).collect())
        }
        _ => {
            let mut o: Vec<(String, V)> = Vec::new();
            let n = s.below(4);
            for _ in 0..n {
                let k = s.pick(&KEYS).to_string();
                if !o.iter().any(|(l, _)| *l == k) {
                    let v = data(s, depth - 1);
                    o.push((k, v));
                }
            }
            V::Obj(o)
        }
    }
}

fn nodes(v: &V) -> usize {
    match v {
        V::Arr(l) => 1 + l.iter().map(nodes).sum::<usize>(),
        V::Obj(o) => 1 + o.iter().map(|(_, v)| nodes(v)).sum::<usize>(),
        _ => 1,
    }
}

// --- Tests ----------------------------------------------------------------------------------------

fn check(what: &str, got: Result<Dv, String>, want: &Fit) -> Res {
    match (want, got) {
        (Yes(w), Ok(d)) => ensure!(d == *w, format!("data-{what}"), "{what}: {d:?}\nwant {w:?}"),
        (Yes(w), Err(e)) => fail!(format!("refused-{what}"), "{what}: {e}\nwant {w:?}"),
        (No, Ok(d)) => fail!(format!("accepted-{what}"), "{what}: {d:?}"),
        (No, Err(_)) | (Open, _) => {}
    }
    Ok(())
}

fn label(c: &mut Case, f: &Fit) {
    c.label(match f {
        Yes(_) => "fits",
        No => "refused",
        Open => "open",
    });
}

fn text<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

fn json(v: &V) -> serde_json::Value {
    serde_json::to_value(v.real()).expect("json")
}

fn c23_value(s: &mut Src, c: &mut Case) -> Res {
    let depth = s.range(1, 3);
    let v = if s.chance(1, 3) { data(s, depth) } else { V::Obj((0..s.range(1, 3)).map(|i| (KEYS[i].to_string(), data(s, depth))).collect()) };
    let (sh, changes) = shape(s, &v);
    c.input = format!("{v:?}\nas {sh:?}");
    c.nontrivial = nodes(&v) >= 4 && dyns::size(&sh) >= 4 && changes <= 2;
    let want = fit(&sh, &v, Form::Value);
    label(c, &want);
    let value = v.real();
    // The reference agrees with what another format does with the same data.
    let j = json(&v);
    if of_json(&j) == v {
        let got = text(dyns::read(&sh, || serde_json::from_value(j)));
        check("json", got, &fit(&sh, &v, Form::Json)).map_err(|mut f| {
            f.msg = format!("the reference is wrong: {}", f.msg);
            f
        })?;
    }
    let got = no_panic(|| dyns::read(&sh, || hcl::from_value(value.clone()))).map_err(|m| Fail::new("panic", m))?;
    check("from_value", text(got), &want)?;
    let want = fit(&sh, &v, Form::Expr);
    let expr = hcl::Expression::from(value.clone());
    let got = no_panic(|| De(&sh).deserialize(expr.into_deserializer())).map_err(|m| Fail::new("panic", m))?;
    check("expression", text(got), &want)?;
    // As attribute of a document.
    let doc = no_panic(|| hcl::to_string(&hcl::Value::Object([("attr".to_string(), value.clone())].into_iter().collect()))).map_err(|m| Fail::new("panic", m))?;
    let doc = doc.map_err(|e| Fail::new("write", e.to_string()))?;
    let sh = Sh::Struct("Doc", dyns::intern_list(&["attr"]), vec![sh]);
    let got = no_panic(|| dyns::read(&sh, || hcl::from_str(&doc))).map_err(|m| Fail::new("panic", m))?;
    check("attribute", text(got), &want.map(|d| Dv::Seq(vec![d])))
}

fn c23_document(s: &mut Src, c: &mut Case) -> Res {
    let (b, txt) = document(s, c);
    if body_bad_key(&b) {
        c.discard = true;
        return Ok(());
    }
    let value: hcl::Value = hcl::from_str(&txt).map_err(|e| Fail::new("error", format!("{e}")))?;
    let v = V::of(&value);
    let (sh, changes) = shape(s, &v);
    c.input = format!("{txt}\nas {sh:?}");
    c.nontrivial = nodes(&v) >= 4 && dyns::size(&sh) >= 4 && changes <= 2;
    let body: hcl::Body = txt.parse().map_err(|e| Fail::new("error", format!("{e}")))?;
    let got = no_panic(|| dyns::read(&sh, || hcl::from_value(value.clone()))).map_err(|m| Fail::new("panic", m))?;
    check("from_value", text(got), &fit(&sh, &v, Form::Value))?;
    let mut want = fit(&sh, &v, Form::Expr);
    if body_equal_keys(&body) {
        c.label("equal-keys");
        want = Open;
    }
    label(c, &want);
    let all = no_panic(|| {
        [
            ("from_str", text(dyns::read(&sh, || hcl::from_str(&txt)))),
            ("from_slice", text(dyns::read(&sh, || hcl::from_slice(txt.as_bytes())))),
            ("from_reader", text(dyns::read(&sh, || hcl::from_reader(txt.as_bytes())))),
            ("from_body", text(dyns::read(&sh, || hcl::from_body(body.clone())))),
        ]
    })
    .map_err(|m| Fail::new("panic", m))?;
    let first = all[0].1.clone();
    for (what, got) in all {
        ensure!(got == first, format!("differs-{what}"), "{what}: {got:?}\nfrom_str: {first:?}");
        check(what, got, &want)?;
    }
    let expr = hcl::Expression::from(body.clone());
    let got = no_panic(|| De(&sh).deserialize(expr.into_deserializer())).map_err(|m| Fail::new("panic", m))?;
    if !matches!(sh, Sh::Str | Sh::Char) {
        check("expression", text(got), &want)?;
    }
    Ok(())
}
