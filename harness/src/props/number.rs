//! C14: numbers.

use super::t;
use crate::engine::{Case, Fail, Prop, Res, Test};
use crate::model::{Bin, BINS, N};
use crate::src::Src;
use crate::{ensure, fail};
use hcl::eval::{Context, Evaluate};
use hcl::Number;
use serde::Deserialize;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn add(p: &mut Vec<Prop>, ts: &mut Vec<Test>) {
    p.push(Prop { id: "C14", rule: "a number or an operation on numbers beyond small integers: a boundary of an integer type, a float, a mixed pair, a result that is not the smaller type's" });
    ts.push(t("C14", "value", 300_000, 4_000_000, value));
    ts.push(t("C14", "compare", 300_000, 4_000_000, compare));
    ts.push(t("C14", "arithmetic", 400_000, 6_000_000, arithmetic));
    ts.push(t("C14", "evaluate", 150_000, 1_500_000, evaluate));
    ts.push(t("C14", "literal", 150_000, 1_500_000, literal));
}

const U: [u64; 16] = [
    0,
    1,
    2,
    3,
    10,
    127,
    255,
    65_535,
    (1 << 31) - 1,
    1 << 31,
    (1 << 32) - 1,
    (1 << 53) - 1,
    1 << 53,
    i64::MAX as u64,
    1 << 63,
    u64::MAX,
];
const F: [f64; 22] = [
    0.5,
    -0.0,
    0.1,
    1.5,
    2.5,
    1e15,
    9_007_199_254_740_992.0,
    9_007_199_254_740_993.0,
    1e18,
    9_223_372_036_854_775_807.0,
    9_223_372_036_854_777_856.0,
    1e19,
    18_446_744_073_709_551_615.0,
    18_446_744_073_709_555_712.0,
    1.8e19,
    1e20,
    1e300,
    f64::MAX,
    f64::MIN_POSITIVE,
    5e-324,
    f64::EPSILON,
    4_503_599_627_370_496.5,
];

fn near(s: &mut Src, v: u64) -> u64 {
    match s.below(4) {
        0 | 1 => v,
        2 => v.wrapping_add(s.draw(3)),
        _ => v.wrapping_sub(s.draw(3)),
    }
}

pub fn num(s: &mut Src) -> N {
    match s.weighted(&[4, 4, 4, 2, 3, 3, 2]) {
        0 => N::U(s.draw(100)),
        1 => {
            let v = *s.pick(&U);
            N::U(near(s, v))
        }
        2 => {
            let v = *s.pick(&U);
            let v = near(s, v);
            N::from_int(-i128::from(v)).unwrap_or(N::U(v))
        }
        3 => {
            let b = s.below(64);
            N::U(s.draw(0) >> b)
        }
        4 => {
            let f = *s.pick(&F);
            let f = match s.below(4) {
                0 => f,
                1 => -f,
                2 => f64::from_bits(f.to_bits() + s.draw(3)),
                _ => -f64::from_bits((f.to_bits() + s.draw(3)).saturating_sub(1)),
            };
            if f.is_finite() {
                N::f(f)
            } else {
                N::U(0)
            }
        }
        5 => {
            let f = f64::from_bits(s.draw(0));
            if f.is_finite() {
                N::f(f)
            } else {
                N::U(1)
            }
        }
        _ => {
            let m = s.draw(2_000_001) as f64 - 1_000_000.0;
            N::f(m / *s.pick(&[1.0, 2.0, 4.0, 10.0, 3.0, 1000.0]))
        }
    }
}

pub fn make(n: &N) -> Number {
    match n {
        N::U(u) => Number::from(*u),
        N::I(i) => Number::from(*i),
        N::F(f) => Number::from_f64(*f).expect("finite"),
    }
}

/// Exact comparison.
pub fn cmp(a: &N, b: &N) -> Ordering {
    match (a, b) {
        (N::F(x), N::F(y)) => x.partial_cmp(y).unwrap(),
        (N::F(x), o) => {
            let i = o.int().unwrap();
            if x.abs() >= 1e30 {
                return if *x > 0.0 { Ordering::Greater } else { Ordering::Less };
            }
            let fl = x.floor();
            (fl as i128).cmp(&i).then(if *x > fl { Ordering::Greater } else { Ordering::Equal })
        }
        (_, N::F(_)) => cmp(b, a).reverse(),
        _ => a.int().unwrap().cmp(&b.int().unwrap()),
    }
}

fn eq_n(n: &N, g: &Number) -> Result<(), String> {
    let (u, i, f) = match n {
        N::U(u) => (Some(*u), i64::try_from(*u).ok(), *u as f64),
        N::I(i) => (None, Some(*i), *i as f64),
        N::F(f) => (None, None, *f),
    };
    if g.as_u64() != u || g.as_i64() != i || g.as_f64() != Some(f) {
        return Err(format!("{n:?} reports as_u64 {:?}, as_i64 {:?}, as_f64 {:?}", g.as_u64(), g.as_i64(), g.as_f64()));
    }
    if g.is_u64() != u.is_some() || g.is_i64() != i.is_some() || g.is_f64() != matches!(n, N::F(_)) {
        return Err(format!("{n:?} reports is_u64 {:?}, is_i64 {:?}, is_f64 {:?}", g.is_u64(), g.is_i64(), g.is_f64()));
    }
    Ok(())
}

fn hash(n: &Number) -> u64 {
    let mut h = DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}

fn boundary(n: &N) -> bool {
    !matches!(n, N::U(0..=100))
}

fn value(s: &mut Src, c: &mut Case) -> Res {
    let n = num(s);
    c.input = format!("{n:?}");
    c.nontrivial = boundary(&n);
    c.label(match n {
        N::U(_) => "unsigned",
        N::I(_) => "negative",
        N::F(_) => "float",
    });
    let g = make(&n);
    let chk = |what: &str, g: &Number| -> Res { eq_n(&n, g).map_err(|m| Fail::new(format!("value:{what}"), format!("{what}: {m}"))) };
    chk("from", &g)?;
    // The same integer through every type that holds it.
    if let Some(i) = n.int() {
        macro_rules! via {
            ($($t:ty),*) => { $( if let Ok(v) = <$t>::try_from(i) { chk(stringify!($t), &Number::from(v))?; } )* };
        }
        via!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
        let f = i as f64;
        if f as i128 == i {
            chk("from_f64", &Number::from_f64(f).ok_or_else(|| Fail::new("value:from_f64", "None"))?)?;
        }
    }
    // Text.
    let d = g.to_string();
    let back: f64 = d.parse().map_err(|_| Fail::new("display", format!("{d:?} is no number")))?;
    ensure!(back == n.to_f64(), "display", "{n:?} displays as {d}");
    if let Some(i) = n.int() {
        ensure!(d == i.to_string(), "display", "{n:?} displays as {d}");
    }
    let e: hcl::Expression = d.parse().map_err(|e| Fail::new("display-parse", format!("{d}: {e}")))?;
    match &e {
        hcl::Expression::Number(p) => chk("parsed", p)?,
        o => {
            let v = o.evaluate(&Context::new()).map_err(|e| Fail::new("display-parse", format!("{d}: {e}")))?;
            chk("parsed", v.as_number().ok_or_else(|| Fail::new("display-parse", format!("{d} parses as {v:?}")))?)?;
        }
    }
    // Serialisation.
    let j = serde_json::to_string(&g).map_err(|e| Fail::new("json", e.to_string()))?;
    let p: Number = serde_json::from_str(&j).map_err(|e| Fail::new("json", format!("{j}: {e}")))?;
    chk("json", &p)?;
    let p = Number::deserialize(g).map_err(|e| Fail::new("deserialize", e.to_string()))?;
    chk("deserialize", &p)?;
    let v = hcl::to_value(g).map_err(|e| Fail::new("to_value", e.to_string()))?;
    chk("to_value", v.as_number().ok_or_else(|| Fail::new("to_value", format!("{v:?}")))?)?;
    let p: Number = hcl::from_value(v.clone()).map_err(|e| Fail::new("from_value", e.to_string()))?;
    chk("from_value", &p)?;
    let x = hcl::expr::to_expression(g).map_err(|e| Fail::new("to_expression", e.to_string()))?;
    ensure!(x == hcl::Expression::Number(g), "to_expression", "{x:?}");
    // The value wrapper answers the same.
    ensure!((v.as_u64(), v.as_i64(), v.as_f64()) == (g.as_u64(), g.as_i64(), g.as_f64()), "wrapper", "{v:?}");
    ensure!((v.is_u64(), v.is_i64(), v.is_f64()) == (g.is_u64(), g.is_i64(), g.is_f64()), "wrapper", "{v:?}");
    let doc = format!("{}", hcl::to_string(&hcl::value!({ "n" = (v.clone()) })).map_err(|e| Fail::new("to_string", e.to_string()))?);
    let p: hcl::Value = hcl::from_str(&doc).map_err(|e| Fail::new("from_str", format!("{doc}: {e}")))?;
    chk("document", p.as_object().and_then(|o| o.get("n")).and_then(|v| v.as_number()).ok_or_else(|| Fail::new("document", format!("{doc} reads as {p:?}")))?)?;
    // Typed conversion only where the value fits.
    macro_rules! typed {
        ($($t:ty),*) => { $( {
            let r = hcl::from_value::<$t>(v.clone());
            match n.int().and_then(|i| <$t>::try_from(i).ok()) {
                Some(w) => ensure!(r.as_ref().ok() == Some(&w), "typed", "{n:?} as {} gives {r:?}", stringify!($t)),
                None => ensure!(r.is_err(), "typed", "{n:?} as {} gives {r:?}", stringify!($t)),
            }
        } )* };
    }
    typed!(u8, u16, u32, u64, i8, i16, i32, i64, u128, i128);
    ensure!(hcl::from_value::<f64>(v.clone()).is_ok_and(|f| f == n.to_f64()), "typed", "f64 from {n:?}");
    for f in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        ensure!(Number::from_f64(f).is_none(), "non-finite", "{f} accepted");
    }
    Ok(())
}

fn compare(s: &mut Src, c: &mut Case) -> Res {
    let a = num(s);
    let b = match s.below(4) {
        0 => num(s),
        1 => a.clone(),
        2 => N::f(a.to_f64()),
        _ => match a.int() {
            Some(i) => N::from_int(i + s.draw(3) as i128 - 1).unwrap_or(N::U(0)),
            None => N::f(f64::from_bits(a.to_f64().to_bits().wrapping_add(s.draw(2)))).pipe_finite(),
        },
    };
    c.input = format!("{a:?} {b:?}");
    c.nontrivial = boundary(&a) && boundary(&b);
    c.label(if matches!(a, N::F(_)) != matches!(b, N::F(_)) { "mixed" } else { "same-kind" });
    let (x, y) = (make(&a), make(&b));
    let w = cmp(&a, &b);
    c.label(if w == Ordering::Equal { "equal" } else { "unequal" });
    ensure!((x == y) == (w == Ordering::Equal) && (y == x) == (x == y) && (x != y) != (x == y), "eq", "{a:?} == {b:?} is {}", x == y);
    ensure!(x.partial_cmp(&y) == Some(w) && y.partial_cmp(&x) == Some(w.reverse()), "ord", "{a:?} cmp {b:?} is {:?}, want {w:?}", x.partial_cmp(&y));
    ensure!((x < y, x <= y, x > y, x >= y) == (w.is_lt(), w.is_le(), w.is_gt(), w.is_ge()), "ord", "{a:?} {b:?}");
    if w == Ordering::Equal {
        ensure!(hash(&x) == hash(&y), "hash", "{a:?} and {b:?} are equal and hash differently");
    }
    Ok(())
}

trait Finite {
    fn pipe_finite(self) -> N;
}
impl Finite for N {
    fn pipe_finite(self) -> N {
        if self.to_f64().is_finite() {
            self
        } else {
            N::U(0)
        }
    }
}

/// The result of an arithmetic operator, `None` where there is no finite one.
pub fn arith(a: &N, op: Bin, b: &N) -> Option<N> {
    let (x, y) = (a.to_f64(), b.to_f64());
    let f = match op {
        Bin::Add => x + y,
        Bin::Sub => x - y,
        Bin::Mul => x * y,
        Bin::Div => x / y,
        Bin::Mod => x % y,
        _ => unreachable!(),
    };
    if let (Some(i), Some(j)) = (a.int(), b.int()) {
        let exact = match op {
            Bin::Add => Some(i + j),
            Bin::Sub => Some(i - j),
            Bin::Mul => i.checked_mul(j),
            Bin::Div => (j != 0 && i % j == 0).then(|| i / j),
            _ => (j != 0).then(|| i % j),
        };
        if let Some(n) = exact.and_then(N::from_int) {
            return Some(n);
        }
    }
    f.is_finite().then(|| N::f(f))
}

pub fn neg(a: &N) -> N {
    match a.int() {
        Some(i) => N::from_int(-i).unwrap_or_else(|| N::f(-a.to_f64())),
        None => N::f(-a.to_f64()),
    }
}

fn pair(s: &mut Src) -> (N, N) {
    let a = num(s);
    let b = match s.below(6) {
        0..=2 => num(s),
        3 => a.clone(),
        // Divisors of interest.
        4 => N::U(1 + s.draw(20)),
        _ => match a.int() {
            Some(i) if i != 0 => N::from_int(i / (1 + s.draw(9) as i128)).unwrap_or(N::U(1)),
            _ => num(s),
        },
    };
    (a, b)
}

fn arithmetic(s: &mut Src, c: &mut Case) -> Res {
    let (a, b) = pair(s);
    let op = *s.pick(&BINS[..5]);
    c.input = format!("{a:?} {} {b:?}", op.sym());
    c.nontrivial = boundary(&a) || boundary(&b);
    let n = make(&a);
    eq_n(&neg(&a), &-n).map_err(|m| Fail::new("neg", format!("-{a:?}: {m}")))?;
    let Some(want) = arith(&a, op, &b) else {
        // There is nothing the operator of the number type could return; see `evaluate`.
        c.label("no-finite-result");
        return Ok(());
    };
    c.label(match want {
        N::F(_) => "float-result",
        N::I(_) => "negative-result",
        N::U(_) => "unsigned-result",
    });
    let m = make(&b);
    let got = match op {
        Bin::Add => n + m,
        Bin::Sub => n - m,
        Bin::Mul => n * m,
        Bin::Div => n / m,
        _ => n % m,
    };
    eq_n(&want, &got).map_err(|m| Fail::new("arithmetic", format!("{a:?} {} {b:?}: {m}", op.sym())))?;
    ensure!(got == make(&want), "arithmetic", "{a:?} {} {b:?} is {got}, want {want:?}", op.sym());
    Ok(())
}

/// The operators of the expression language.
fn evaluate(s: &mut Src, c: &mut Case) -> Res {
    let (a, b) = pair(s);
    let op = *s.pick(&BINS[..11]);
    c.input = format!("{a:?} {} {b:?}", op.sym());
    c.nontrivial = boundary(&a) || boundary(&b);
    let mut ctx = Context::new();
    ctx.declare_var("a", make(&a));
    ctx.declare_var("b", make(&b));
    let text = format!("a {} b", op.sym());
    let e: hcl::Expression = text.parse().map_err(|e| Fail::new("parse", format!("{e}")))?;
    let got = e.evaluate(&ctx);
    let w = cmp(&a, &b);
    let want = match op {
        Bin::Eq => Some(hcl::Value::Bool(w.is_eq())),
        Bin::Ne => Some(hcl::Value::Bool(w.is_ne())),
        Bin::Lt => Some(hcl::Value::Bool(w.is_lt())),
        Bin::Le => Some(hcl::Value::Bool(w.is_le())),
        Bin::Gt => Some(hcl::Value::Bool(w.is_gt())),
        Bin::Ge => Some(hcl::Value::Bool(w.is_ge())),
        _ => arith(&a, op, &b).map(|n| hcl::Value::Number(make(&n))),
    };
    match (want, got) {
        (Some(w), Ok(g)) => ensure!(w == g, "evaluate", "{a:?} {} {b:?} evaluates to {g:?}, want {w:?}", op.sym()),
        (None, Err(_)) => c.label("error"),
        (w, g) => fail!("evaluate", "{a:?} {} {b:?} evaluates to {g:?}, want {w:?}", op.sym()),
    }
    let e: hcl::Expression = "-a".parse().map_err(|e| Fail::new("parse", format!("{e}")))?;
    let g = e.evaluate(&ctx).map_err(|e| Fail::new("evaluate", e.to_string()))?;
    ensure!(g == hcl::Value::Number(make(&neg(&a))), "evaluate", "-{a:?} is {g:?}");
    Ok(())
}

/// Number literals in every notation have the value of the literal.
fn literal(s: &mut Src, c: &mut Case) -> Res {
    let digits = |s: &mut Src, max: usize| -> String {
        let n = s.range(1, max);
        (0..n).map(|_| char::from(b'0' + s.draw(10) as u8)).collect()
    };
    let mut text = match s.below(4) {
        0 => digits(s, 3),
        1 => digits(s, 21),
        2 => {
            let v = *s.pick(&U);
            near(s, v).to_string()
        }
        _ => format!("{}{}", "0".repeat(s.below(4)), digits(s, 4)),
    };
    let mut float = false;
    if s.bool() {
        float = true;
        text += ".";
        text += &digits(s, 20);
    }
    if s.chance(1, 3) {
        float = true;
        text += *s.pick(&["e", "E"]);
        text += *s.pick(&["", "+", "-"]);
        text += &digits(s, 3);
    }
    c.input = text.clone();
    c.nontrivial = text.len() > 2;
    c.label(if float { "float" } else { "integer" });
    let want = if float {
        let f: f64 = text.parse().unwrap();
        f.is_finite().then(|| N::f(f))
    } else {
        text.parse::<u64>().ok().map(N::U)
    };
    let got = text.parse::<hcl::Expression>();
    let edit = text.parse::<hcl_edit::expr::Expression>();
    match want {
        Some(n) => {
            let Ok(hcl::Expression::Number(g)) = &got else { fail!("literal", "{text} is {got:?}, want {n:?}") };
            eq_n(&n, g).map_err(|m| Fail::new("literal", format!("{text}: {m}")))?;
            let Ok(hcl_edit::expr::Expression::Number(g)) = &edit else { fail!("literal", "{text} is {edit:?}, want {n:?}") };
            eq_n(&n, g.value()).map_err(|m| Fail::new("literal", format!("{text}: {m}")))?;
            // Negative literals.
            let v = format!("-{text}").parse::<hcl::Expression>().ok().and_then(|e| e.evaluate(&Context::new()).ok());
            ensure!(v == Some(hcl::Value::Number(make(&neg(&n)))), "literal", "-{text} is {v:?}");
        }
        None => {
            c.label("out-of-range");
            ensure!(got.is_err() && edit.is_err(), "literal", "{text} has no value but reads as {got:?}");
        }
    }
    Ok(())
}
