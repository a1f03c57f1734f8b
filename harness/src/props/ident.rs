//! C16: identifiers.

use super::t;
use crate::engine::{self, no_panic, Case, Prop, Res, Test};
use crate::model::{E, K, L, Op, S, T};
use crate::reify;
use crate::src::Src;
use crate::ensure;
use hcl::{Identifier, InternalString};
use hcl_primitives::ident::{is_id_continue, is_id_start, is_ident};
use hcl_primitives::Ident;
use std::borrow::{Borrow, Cow};
use std::collections::HashMap;

const BLOCK: u64 = 64;

pub fn add(p: &mut Vec<Prop>, ts: &mut Vec<Test>) {
    p.push(Prop { id: "C16", rule: "a text with a character that is no ASCII letter, or a whole block of code points in both positions" });
    let mut x = t("C16", "codepoints", 0x11_0000 / BLOCK, 0x11_0000 / BLOCK, codepoints);
    x.fixed = 0x11_0000 / BLOCK;
    ts.push(x);
    ts.push(t("C16", "text", 200_000, 2_000_000, text));
    ts.push(t("C16", "positions", 100_000, 1_000_000, positions));
}

fn start(c: char) -> bool {
    c == '_' || unicode_ident::is_xid_start(c)
}
fn cont(c: char) -> bool {
    c == '-' || unicode_ident::is_xid_continue(c)
}
fn valid(s: &str) -> bool {
    let mut cs = s.chars();
    cs.next().is_some_and(start) && cs.all(cont)
}

fn sanitized(s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if i == 0 && cont(c) && !start(c) {
            out.push('_');
        }
        out.push(if cont(c) || (i == 0 && start(c)) { c } else { '_' });
    }
    if out.is_empty() {
        out.push('_');
    }
    out
}

fn attr_name(text: &str) -> Option<String> {
    match &reify::body(&hcl_edit::parser::parse_body(&format!("{text} = 1\n")).ok()?)[..] {
        [S::Attr(k, E::Num(_))] => Some(k.clone()),
        _ => None,
    }
}

/// Every code point, alone and after a letter.
fn codepoints(_s: &mut Src, c: &mut Case) -> Res {
    let base = engine::case_index().min(0x11_0000 / BLOCK - 1) * BLOCK;
    c.input = format!("U+{base:04X}..U+{:04X}", base + BLOCK - 1);
    c.nontrivial = true;
    for cp in base..base + BLOCK {
        let Some(ch) = char::from_u32(cp as u32) else { continue };
        let (st, co) = (start(ch), cont(ch));
        ensure!(is_id_start(ch) == st && is_id_continue(ch) == co, "class", "U+{cp:04X}: start {} continue {}", is_id_start(ch), is_id_continue(ch));
        let (one, two) = (ch.to_string(), format!("a{ch}"));
        check(&one)?;
        check(&two)?;
        ensure!((attr_name(&one).as_deref() == Some(&one)) == st, "parser", "U+{cp:04X} as name: {:?}", attr_name(&one));
        if st {
            c.label("has-start");
        }
        if co {
            c.label("has-continue");
        }
        // White space and comments aside, the parser takes no part of it for a name.
        let got = attr_name(&two);
        if co {
            ensure!(got.as_deref() == Some(&*two), "parser", "U+{cp:04X} in a name: {got:?}");
        } else if !matches!(ch, ' ' | '\t') {
            ensure!(got.is_none(), "parser", "U+{cp:04X} in a name: {got:?}");
        }
    }
    Ok(())
}

/// All ways to make an identifier agree.
fn check(s: &str) -> Res {
    let want = valid(s);
    ensure!(is_ident(s) == want, "is_ident", "{s:?}: {}", is_ident(s));
    let is = |what: &str, got: Option<String>| -> Res {
        ensure!(got.is_some() == want, "accept", "{what}: {s:?} gives {got:?}, valid: {want}");
        ensure!(got.is_none() || got.as_deref() == Some(s), "text", "{what}: {s:?} became {got:?}");
        Ok(())
    };
    let st = |i: Ident| i.into_string();
    is("Ident::try_new", Ident::try_new(s).ok().map(st))?;
    is("Ident::try_from(&str)", Ident::try_from(s).ok().map(st))?;
    is("Ident::try_from(String)", Ident::try_from(s.to_string()).ok().map(st))?;
    is("Ident::try_from(Cow)", Ident::try_from(Cow::Borrowed(s)).ok().map(st))?;
    is("Ident::try_from(InternalString)", Ident::try_from(InternalString::from(s)).ok().map(st))?;
    is("Ident::from_str", s.parse::<Ident>().ok().map(st))?;
    is("Ident::new", no_panic(|| Ident::new(s)).ok().map(st))?;
    is("Identifier::new", Identifier::new(s).ok().map(Identifier::into_inner))?;
    is("Variable::new", hcl::expr::Variable::new(s).ok().map(|v| v.into_inner().into_inner()))?;
    Ok(())
}

fn check_more(s: &str) -> Res {
    check(s)?;
    let want = valid(s);
    let is = |what: &str, got: Option<String>| -> Res {
        ensure!(got.is_some() == want, "accept", "{what}: {s:?} gives {got:?}, valid: {want}");
        ensure!(got.is_none() || got.as_deref() == Some(s), "text", "{what}: {s:?} became {got:?}");
        Ok(())
    };
    let json = serde_json::to_string(s).unwrap();
    is("Ident from JSON", serde_json::from_str::<Ident>(&json).ok().map(Ident::into_string))?;
    is("Identifier from JSON", serde_json::from_str::<Identifier>(&json).ok().map(Identifier::into_inner))?;
    is("Ident from Value", hcl::from_value::<Ident>(hcl::Value::from(s)).ok().map(Ident::into_string))?;
    is("Identifier from Value", hcl::from_value::<Identifier>(hcl::Value::from(s)).ok().map(Identifier::into_inner))?;
    is("Variable from Value", hcl::from_value::<hcl::expr::Variable>(hcl::Value::from(s)).ok().map(|v| v.into_inner().into_inner()))?;
    // Sanitising.
    let w = sanitized(s);
    ensure!(valid(&w), "oracle", "{w:?}");
    let got = [
        Ident::new_sanitized(s).into_string(),
        Identifier::sanitized(s).into_inner(),
        Identifier::from(s).into_inner(),
        Identifier::from(s.to_string()).into_inner(),
        Identifier::from(Cow::Borrowed(s)).into_inner(),
        hcl::expr::Variable::sanitized(s).into_inner().into_inner(),
    ];
    for g in got {
        ensure!(g == w, "sanitized", "{s:?} becomes {g:?}, want {w:?}");
        ensure!(!want || g == s, "sanitized", "{s:?} is valid and becomes {g:?}");
    }
    // The unchecked constructors and the string type keep any text.
    let keep = [
        Ident::new_unchecked(s).into_string(),
        Identifier::unchecked(s).into_inner(),
        InternalString::from(s).into_string(),
        InternalString::from(s.to_string()).into_string(),
        InternalString::from(&s.to_string()).into_string(),
        InternalString::from(s.to_string().into_boxed_str()).into_string(),
        InternalString::from(Cow::Borrowed(s)).into_string(),
        InternalString::from(Cow::<str>::Owned(s.to_string())).into_string(),
        InternalString::from(s).into_cow_str().into_owned(),
        String::from(InternalString::from(s)),
        Cow::from(InternalString::from(s)).into_owned(),
        Cow::from(&InternalString::from(s)).into_owned(),
        InternalString::from(&InternalString::from(s)).as_str().to_string(),
        InternalString::from(s).to_string(),
    ];
    for g in keep {
        ensure!(g == s, "text", "{s:?} became {g:?}");
    }
    if want {
        let i = Ident::new(s);
        let f = Identifier::new(s).unwrap();
        let texts: [&str; 8] = [i.as_str(), &i, i.as_ref(), Borrow::borrow(&i), f.as_str(), &f, f.as_ref(), Borrow::borrow(&f)];
        for g in texts {
            ensure!(g == s, "text", "{s:?} became {g:?}");
        }
        ensure!(i.to_string() == s && f.to_string() == s, "text", "{s:?} displays as {i} / {f}");
        ensure!(Identifier::from(i.clone()) == f && Ident::from(f.clone()) == i, "text", "conversion of {s:?}");
        ensure!(String::from(i.clone()) == s && InternalString::from(i.clone()).as_str() == s, "text", "conversion of {s:?}");
        let mut m: HashMap<Ident, u8> = HashMap::new();
        m.insert(i.clone(), 1);
        ensure!(m.get(s) == Some(&1), "hash", "{s:?} is not found in a hash map by its text");
        ensure!(serde_json::to_value(&i).ok() == Some(serde_json::json!(s)) && serde_json::to_value(&f).ok() == Some(serde_json::json!(s)), "serialize", "{s:?}");
    }
    Ok(())
}

const CH: &[char] = &[
    'a', 'b', 'Z', '_', '-', '0', '9', ' ', '.', '\t', '\n', '$', '{', '"', '#', '/', '*', ':', '=', '\0', '\u{7f}', 'é', 'ß', 'ا', '中', '𝒳', '\u{300}', '\u{b7}', '\u{203f}', '\u{200d}', '\u{200c}', '\u{a0}', '\u{2028}', '٣', '²', 'Ⅷ',
    '℘', '\u{37a}', '\u{e33}', '\u{fe33}', '🦀', '\u{10ffff}', '\u{feff}', '＿', 'Ａ', '\u{2054}', '–', '‐', '−',
];

fn name(s: &mut Src) -> String {
    let mut out = String::new();
    let mut n = 0;
    let good = s.bool();
    while s.more(n, 5, 30) {
        n += 1;
        let ch = ch(s);
        if good && !(if out.is_empty() { start(ch) } else { cont(ch) }) {
            continue;
        }
        out.push(ch);
    }
    out
}

fn ch(s: &mut Src) -> char {
        match s.weighted(&[6, 4, 1]) {
            0 => *s.pick(&['a', 'b', 'c', '_', '-', '1']),
            1 => *s.pick(CH),
            _ => char::from_u32(s.draw(0x11_0000) as u32).unwrap_or('x'),
        }
}

fn text(s: &mut Src, c: &mut Case) -> Res {
    let n = name(s);
    c.input = n.clone();
    c.nontrivial = n.chars().any(|c| !c.is_ascii_alphabetic());
    c.label(if valid(&n) { "valid" } else { "invalid" });
    check_more(&n)
}

/// In each place where the grammar has an identifier, exactly the identifiers are read as such.
fn positions(s: &mut Src, c: &mut Case) -> Res {
    let n = name(s);
    c.input = n.clone();
    c.nontrivial = n.chars().any(|c| !c.is_ascii_alphabetic());
    let want = valid(&n);
    c.label(if want { "valid" } else { "invalid" });
    let keyword = matches!(&*n, "null" | "true" | "false" | "for");
    let body = |text: String| -> Option<Vec<S>> { hcl_edit::parser::parse_body(&text).ok().map(|b| reify::body(&b)) };
    let expr = |text: String| -> Option<E> { hcl_edit::parser::parse_expr(&text).ok().map(|e| reify::expr(&e)) };
    let mut got: Vec<(&str, Option<String>)> = vec![("attribute", attr_name(&n))];
    got.push((
        "block",
        match body(format!("{n} {{}}\n")).as_deref() {
            Some([S::Block(b)]) if b.labels.is_empty() => Some(b.ident.clone()),
            _ => None,
        },
    ));
    got.push((
        "label",
        match body(format!("b {n} {{}}\n")).as_deref() {
            Some([S::Block(b)]) => match &b.labels[..] {
                [L::Id(l)] => Some(l.clone()),
                _ => None,
            },
            _ => None,
        },
    ));
    if !keyword {
        // Items on separate lines that have the same key are one item.
        let lines = n.contains(['\n', '\r', ',']);
        got.push((
            "variable",
            match expr(n.clone()) {
                Some(E::Var(v)) => Some(v),
                _ => None,
            },
        ));
        got.push((
            "key",
            match expr(format!("{{{n} = 1}}")) {
                Some(E::Obj(v)) if v.len() == 1 && !lines => match &v[0].0 {
                    K::Id(k) => Some(k.clone()),
                    _ => None,
                },
                _ => None,
            },
        ));
    }
    got.push((
        "function",
        match expr(format!("{n}()")) {
            Some(E::Call(p, a, false)) if a.is_empty() && p.len() == 1 => Some(p[0].clone()),
            _ => None,
        },
    ));
    got.push((
        "namespace",
        match expr(format!("x::{n}()")) {
            Some(E::Call(p, a, false)) if a.is_empty() && p.len() == 2 && p[0] == "x" => Some(p[1].clone()),
            _ => None,
        },
    ));
    got.push((
        "attribute access",
        match expr(format!("x.{n}")) {
            Some(E::Trav(_, ops)) => match &ops[..] {
                [Op::Attr(a)] => Some(a.clone()),
                _ => None,
            },
            _ => None,
        },
    ));
    got.push((
        "loop variable",
        match expr(format!("[for {n} in x : 1]")) {
            Some(E::For(f)) if f.key_var.is_none() => Some(f.val_var.clone()),
            _ => None,
        },
    ));
    got.push((
        "directive variable",
        match hcl_edit::parser::parse_template(&format!("%{{for {n},v in x}}%{{endfor}}")).ok().map(|t| reify::template(&t)).as_deref() {
            Some([T::For { key, .. }]) => key.clone(),
            _ => None,
        },
    ));
    got.push((
        "heredoc delimiter",
        match body(format!("a = <<{n}\n. .\n{n}\n")).as_deref() {
            Some([S::Attr(_, E::Heredoc(h))]) => Some(h.delim.clone()),
            _ => None,
        },
    ));
    for (what, g) in got {
        // Blanks and comments around an identifier are no part of it.
        if !want && g.as_ref().is_some_and(|g| *g != n && valid(g)) {
            let rest = n.replacen(g.as_deref().unwrap(), "", 1);
            if rest.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r')) || n.contains('#') || n.contains('/') {
                continue;
            }
        }
        ensure!(g.is_some() == want, "position", "{what}: {n:?} is read as {g:?}, valid: {want}");
        ensure!(g.is_none() || g.as_deref() == Some(&*n), "position", "{what}: {n:?} is read as {g:?}");
    }
    Ok(())
}
