use crate::engine::{Prop, Test};

mod built;
mod cli;
mod derived;
mod edit;
mod eval;
pub mod number;
pub mod parts;
mod fits;
mod format;
mod ident;
mod literal;
mod mapping;
mod parse;
mod reject;
mod typed;
mod views;
mod visit;

pub fn all() -> (Vec<Prop>, Vec<Test>) {
    let mut p = Vec::new();
    let mut t = Vec::new();
    parse::add(&mut p, &mut t);
    literal::add(&mut p, &mut t);
    reject::add(&mut t);
    ident::add(&mut p, &mut t);
    number::add(&mut p, &mut t);
    eval::add(&mut p, &mut t);
    built::add(&mut p, &mut t);
    mapping::add(&mut p, &mut t);
    typed::add(&mut p, &mut t);
    format::add(&mut p, &mut t);
    edit::add(&mut p, &mut t);
    visit::add(&mut p, &mut t);
    cli::add(&mut p, &mut t);
    views::add(&mut p, &mut t);
    fits::add(&mut p, &mut t);
    (p, t)
}

/// Add a test. Cases are numbered from 0; the first `fixed` ones may be enumerated.
pub fn t(prop: &'static str, name: &'static str, quick: u64, thorough: u64, f: fn(&mut crate::src::Src, &mut crate::engine::Case) -> crate::engine::Res) -> Test {
    Test { prop, name, quick, thorough, f, fixed: 0 }
}
