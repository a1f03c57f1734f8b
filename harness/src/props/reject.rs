//! C03: malformed elements are rejected wherever they stand.

use super::t;
use crate::engine::{Case, Res, Test};
use crate::gen::Gen;
use crate::render;
use crate::src::Src;
use crate::{ensure, fail};

pub fn add(ts: &mut Vec<Test>) {
    ts.push(t("C03", "reject", 60_000, 600_000, reject));
    ts.push(t("C03", "duplicate", 20_000, 200_000, duplicate));
}

/// Malformed expressions. Each is wrong whatever follows, in all contexts of `CTX`.
const BAD_EXPR: &[&str] = &[
    "[1 2]", "[1,, 2]", "[,]", "[, 1]", "[1; 2]", "[1", "(1", "(1, 2)", "()", "(1 2)", "{a}", "{a b}", "{a = }", "{= 1}", "{a = 1 b = 2}", "{,}", "{a = 1,, b = 2}", "{a == 1}", "f(1,,2)", "f(,)", "f(, 1)",
    "f(1 2)", "f(...)", "f(a..., b)", "f(a...,)", "f(a....)", "f(1", "a::(1)", "a::b", "::a(1)", "a:b(1)", "1 +", "1 + + ", "* 1", "1 && ", "|| true", "1 = 2", "1 === 2", "1 & 2", "1 | 2", "!", "a!b", "a.", "a..b", "a.[0]",
    "a[", "a[]", "a[1 2]", "a[1, 2]", "a[**]", "a.**", "a.-b", "a.\"b\"", "a.(b)", "1 ? 2", "1 ? : 2", "1 ? 2 :", "? 1 : 2", "5 6", "a b", "\"a\" \"b\"", "[for x y : 1]", "[for x in y]", "[for x in y 1]", "[for in y : 1]",
    "[for x, in y : 1]", "[for x, y, z in w : 1]", "[for \"x\" in y : 1]", "[for 1 in y : 1]", "[for x in : 1]", "[for x in y : ]", "[for x in y : a => b]", "[for x in y : a if ]", "[for x in y : a, b]", "[for x in y : a...]",
    "{for x in y : z}", "{for x in y : => z}", "{for x in y : z => }", "{for x in y : a => b c => d}", "{for x in y : a => b.. }", "{for x in y : a => b if}", "{for x in y : a => b if c ...}", "{for x in y : a = b}", "\"\\q\"",
    "\"a\\q\"", "\"a${b}\\q\"", "\"\\u12\"", "\"x\\u12g4\"", "\"\\u\"", "\"\\U0011\"", "\"\\ud800\"", "\"\\U00110000\"", "\"\\x41\"", "\"\\'\"", "\"\\$\"", "\"a\\${b}\"", "\"${}\"", "\"${a b}\"", "\"${a\"", "\"${~}\"",
    "\"%{}\"", "\"%{if}\"", "\"%{if a}b\"", "\"%{if a b}c%{endif}\"", "\"%{else}\"", "\"%{endif}\"", "\"%{endfor}\"", "\"%{for x in y}z\"", "\"%{for x in y}z%{endif}\"", "\"%{if a}b%{endfor}\"", "\"%{if a}b%{else}c%{else}d%{endif}\"",
    "\"%{for in y}%{endfor}\"", "\"%{for x y}%{endfor}\"", "\"%{for x in y}a%{else}b%{endfor}\"", "\"%{ifa}b%{endif}\"", "\"%{forx in y}a%{endfor}\"", "\"%{for x iny}a%{endfor}\"", "[for x iny : 1]", "[for x in y : a ifb]", "{for x in y : a => b ifc}", "\"%{unless a}b%{endif}\"", "\"01x", "1.", "1e", "1e+", "1.5e", ".5", "+1", "0x10", "1_000", "1..2", "'a'", "`a`", "@",
    "^", "~", "1 ~ 1", ":", ";", "a => b", "=>", "...", "$", "${a}", "%{if a}", "<<", "<<1\nx\n1\n", "<<EOT x\nEOT\n", "<<EOT", "<<EOT\nx\n EO\n", "<<EOT\nEOTX\n", "<<~EOT\nx\nEOT\n", "<<EOT\n${\nEOT\n", "<<EOT\n%{if a}\nEOT\n",
    "\\", "\"", "]", ")", "}", "/", "a /", "1 % % 2", "-", "- -", "!!", "-*1", "a ?? b", "a ?: b", "1 <> 2", "a.b c", "a.0x", "a[0", "a[0}", "[0)", "(0]", "{a = 0]", "f(0]", "not a", "a and b",
];

/// Contexts in which an expression stands; `%` is the place.
const CTX: &[&str] = &[
    "%", "[%]", "[1, %]", "[%, 1]", "(%)", "f(%)", "f(1, %)", "{a = %}", "{a = 1, b = %}", "{(%) = 1}", "\"${%}\"", "\"x${%}y\"", "a[%]", "% ? 1 : 2", "true ? % : 2", "true ? 1 : %", "1 + %", "% + 1", "!(%)", "[for x in % : 1]",
    "[for x in y : %]", "[for x in y : 1 if %]", "{for x in y : (%) => 1}", "{for x in y : 1 => %}", "\"%{if %}x%{endif}\"", "\"%{if a}${%}%{endif}\"", "\"%{for x in %}x%{endfor}\"", "\"%{for x in y}${%}%{endfor}\"",
];

/// Malformed statements, without the line break that ends them.
const BAD_STMT: &[&str] = &[
    "a", "a =", "= 1", "a == 1", "a : 1", "a := 1", "\"a\" = 1", "1 = 1", "a.b = 1", "a[0] = 1", "a b = 1", "(a) = 1", "a = 1 b = 2", "a = 1, b = 2", "a = 1,", "a = 1;", "a = 1 }", "b { a = 1 b = 2 }", "b { a = 1, b = 2 }", "b { a = 1; }",
    "b { c {} }", "b { a = 1 c {} }", "b { a = 1\n}", "b {\na = 1 }", "b {\n", "b {", "b }", "b {}}", "{}", "\"b\" {}", "b 1 {}", "b (c) {}", "b [c] {}", "b c, d {}", "b \"c\", \"d\" {}", "b c.d {}", "b \"c${d}\" {}", "b = {} {}", "b {} c {}",
    "b {} a = 1", "b\n{}", "b \"c\"\n{\n}", "b c\nd {}", "b \"c {}", "b \"\\q\" {}", "b \"x\\q\" {}", "a\n= 1", "a =\n1", "a = 1 +\n2", "a = 1\n+ 2", "a = b\n.c", "a = b ?\n1 : 2", "/* x", "a = 1 /* x", "a = /* x\n1", "/ x", "a = 1 / x = 2", "*/",
    "<<EOT\nx\nEOT", "a = b...", "a = [b...]", "a = {b = c...}", "-a = 1", "0a = 1", "a! = 1", "null", "true {", "a = [\n1\n2\n]", "a = {\nb = 1 c = 2\n}", "a = (1\n", "a = \"${\n", "a = f(1,\n", "$a = 1", "%", "a = <<EOT\nx\n EOTX", "a += 1", "a \"b\" = 1", "b { = 1 }", "b { a }", "b { a = }",
    "b c = 1 {}", "b {\n} }", "]", ")", "}", "a = [}", "b [\n]", "b {\n]", "a = b { c = 1 }", "a {\n} b", "b {\n} # x\n}", "a \u{a0}= 1", "a\u{a0}{}", "\u{feff}", "a = 1\u{b}",
];

fn place(s: &mut Src, stmt: &str) -> String {
    let mut g = Gen::new(s);
    let a = g.body(2);
    let b = g.body(2);
    // The neighbours are of no interest to shrinking: drop them at the cheapest choice.
    let a = if s.bool() { render::render_body(s, &a, false).text } else { String::new() };
    let b = if s.bool() { render::render_body(s, &b, false).text } else { String::new() };
    // Nothing may follow that could complete the snippet.
    let open = stmt.contains("<<") || (stmt.contains("/*") && !stmt.contains("*/")) || stmt.matches('"').count() - stmt.matches("\\\"").count() != 2 * (stmt.matches('"').count() / 2);
    let open = open || stmt.contains("${") || stmt.contains("%{");
    let b = if open { String::new() } else { b };
    let nl = |t: &str| if t.is_empty() || t.ends_with('\n') { "" } else { "\n" };
    let inner = format!("{a}{}{stmt}\n{b}", nl(&a));
    match s.below(3) {
        0 => inner,
        _ if open => inner,
        1 => format!("blk {{\n{inner}{}}}\n", nl(&inner)),
        _ => format!("blk \"x\" {{\n  nested {{\n{inner}{}}}\n}}\n", nl(&inner)),
    }
}

fn reject(s: &mut Src, c: &mut Case) -> Res {
    let stmt = if s.bool() {
        c.label("statement");
        (*s.pick(BAD_STMT)).to_string()
    } else {
        c.label("expression");
        let mut e = (*s.pick(BAD_EXPR)).to_string();
        let n = s.below(3);
        for _ in 0..n {
            e = wrap(s, &e);
        }
        ensure!(hcl_edit::parser::parse_expr(&e).is_err(), "accepted-expression", "{e:?} is accepted as {:?}", hcl_edit::parser::parse_expr(&e).map(|e| crate::reify::expr(&e)));
        format!("x = {e}")
    };
    let text = place(s, &stmt);
    c.input = text.clone();
    c.nontrivial = text.len() > stmt.len() + 4;
    if let Ok(p) = hcl_edit::parser::parse_body(&text) {
        fail!("accepted", "{stmt:?} is accepted: {:?}", crate::reify::body(&p));
    }
    ensure!(hcl::parse(&text).is_err(), "accepted", "hcl::parse accepts {stmt:?}");
    ensure!(hcl::from_str::<hcl::Value>(&text).is_err(), "accepted", "from_str::<Value> accepts {stmt:?}");
    Ok(())
}

fn wrap(s: &mut Src, e: &str) -> String {
    let ctx = s.pick(CTX);
    let i = ctx.find('%').filter(|_| !ctx.starts_with("\"%{"));
    // In the directive contexts the first percent sign is part of the directive.
    let i = i.unwrap_or_else(|| {
        let b = ctx.as_bytes();
        (0..b.len()).find(|i| b[*i] == b'%' && b.get(i + 1) != Some(&b'{')).unwrap()
    });
    format!("{}{}{}", &ctx[..i], e, &ctx[i + 1..])
}

/// An attribute defined twice in one body is refused at any distance; the same name in different
/// bodies, or as a block type, is not.
fn duplicate(s: &mut Src, c: &mut Case) -> Res {
    let mut stmts: Vec<String> = Vec::new();
    let mut attrs: Vec<&str> = Vec::new();
    let mut dup = false;
    let mut n = 0;
    while s.more(n, 5, 12) {
        n += 1;
        let name = *s.pick(&["a", "b", "c", "d-e", "f_", "é", "if", "g1", "h", "i"]);
        match s.below(3) {
            0 => {
                dup |= attrs.contains(&name);
                attrs.push(name);
                stmts.push(format!("{name} = {n}"));
            }
            1 => stmts.push(format!("{name} {{ {name} = 1 }}")),
            _ => {
                let two = s.chance(1, 6);
                dup |= two;
                stmts.push(if two { format!("{name} x {{\n  k = 1\n  {name} {{}}\n  k = 2\n}}") } else { format!("{name} x {{\n  k = 1\n  {name} {{}}\n  k {{}}\n}}") });
            }
        }
    }
    let text = format!("{}\n", stmts.join("\n"));
    c.input = text.clone();
    c.nontrivial = attrs.len() >= 2;
    c.label(if dup { "duplicate" } else { "unique" });
    let ok = hcl_edit::parser::parse_body(&text).is_ok();
    ensure!(ok != dup, "duplicate", "duplicate attribute: {dup}, accepted: {ok}");
    ensure!(hcl::parse(&text).is_ok() == ok, "duplicate", "hcl::parse disagrees");
    Ok(())
}
