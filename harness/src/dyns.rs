//! Typed data without types: a shape says which calls a derived `Serialize` or `Deserialize`
//! implementation of a type of that shape would make, a value holds the data. The pair behaves
//! towards a serialization format like a value of a real Rust type.

use crate::src::Src;
use serde::de::{self, DeserializeSeed, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Sh {
    Unit,
    UnitStruct(&'static str),
    Bool,
    /// Signed integer of that many bits.
    I(u8),
    U(u8),
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Opt(Box<Sh>),
    New(&'static str, Box<Sh>),
    Seq(Box<Sh>),
    Tup(Vec<Sh>),
    TupS(&'static str, Vec<Sh>),
    Map(Box<Sh>, Box<Sh>),
    Struct(&'static str, &'static [&'static str], Vec<Sh>),
    Enum(&'static str, &'static [&'static str], Vec<Var>),
    /// `hcl::ser::Block` and `hcl::ser::LabeledBlock`.
    Block(Box<Sh>),
    Labeled(Box<Sh>),
    /// Skipped when reading.
    Ignored,
    /// Types of the crate itself.
    Node(Node),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Node {
    Expr,
    Variable,
    Traversal,
    FuncCall,
    Conditional,
    Operation,
    Unary,
    Binary,
    For,
    Template,
    Heredoc,
    Number,
    Ident,
    /// Written as a string, unlike the others.
    Text,
}

pub const NODES: [Node; 14] = [
    Node::Expr,
    Node::Variable,
    Node::Traversal,
    Node::FuncCall,
    Node::Conditional,
    Node::Operation,
    Node::Unary,
    Node::Binary,
    Node::For,
    Node::Template,
    Node::Heredoc,
    Node::Number,
    Node::Ident,
    Node::Text,
];

#[derive(Clone, Debug, PartialEq)]
pub enum Var {
    Unit,
    New(Sh),
    Tup(Vec<Sh>),
    Struct(&'static [&'static str], Vec<Sh>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dv {
    Unit,
    Bool(bool),
    I(i128),
    U(u128),
    F(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Dv>),
    /// Sequences, tuples, structs.
    Seq(Vec<Dv>),
    Map(Vec<(Dv, Dv)>),
    Var(usize, Box<Dv>),
    Node(hcl::Expression),
}

thread_local! {
    static STRS: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new());
    static LISTS: RefCell<HashMap<Vec<&'static str>, &'static [&'static str]>> = RefCell::new(HashMap::new());
    static SHAPE: RefCell<Option<Sh>> = const { RefCell::new(None) };
}

pub fn intern(s: &str) -> &'static str {
    STRS.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(x) = m.get(s) {
            return *x;
        }
        let x: &'static str = Box::leak(s.to_string().into_boxed_str());
        m.insert(s.to_string(), x);
        x
    })
}

pub fn intern_list(l: &[&'static str]) -> &'static [&'static str] {
    LISTS.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(x) = m.get(l) {
            return *x;
        }
        let x: &'static [&'static str] = Box::leak(l.to_vec().into_boxed_slice());
        m.insert(l.to_vec(), x);
        x
    })
}

// --- Serialization --------------------------------------------------------------------------------

pub struct Ser<'a>(pub &'a Sh, pub &'a Dv);

fn list(v: &Dv) -> &[Dv] {
    match v {
        Dv::Seq(l) => l,
        _ => panic!("not a list: {v:?}"),
    }
}

impl Serialize for Ser<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Sh::Unit, _) => s.serialize_unit(),
            (Sh::UnitStruct(n), _) => s.serialize_unit_struct(n),
            (Sh::Bool, Dv::Bool(b)) => s.serialize_bool(*b),
            (Sh::I(b), Dv::I(i)) => match b {
                8 => s.serialize_i8(*i as i8),
                16 => s.serialize_i16(*i as i16),
                32 => s.serialize_i32(*i as i32),
                64 => s.serialize_i64(*i as i64),
                _ => s.serialize_i128(*i),
            },
            (Sh::U(b), Dv::U(i)) => match b {
                8 => s.serialize_u8(*i as u8),
                16 => s.serialize_u16(*i as u16),
                32 => s.serialize_u32(*i as u32),
                64 => s.serialize_u64(*i as u64),
                _ => s.serialize_u128(*i),
            },
            (Sh::F32, Dv::F(f)) => s.serialize_f32(*f as f32),
            (Sh::F64, Dv::F(f)) => s.serialize_f64(*f),
            (Sh::Char, Dv::Char(c)) => s.serialize_char(*c),
            (Sh::Str, Dv::Str(x)) => s.serialize_str(x),
            (Sh::Bytes, Dv::Bytes(b)) => s.serialize_bytes(b),
            (Sh::Opt(_), Dv::None) => s.serialize_none(),
            (Sh::Opt(t), Dv::Some(v)) => s.serialize_some(&Ser(t, v)),
            (Sh::New(n, t), v) => s.serialize_newtype_struct(n, &Ser(t, v)),
            (Sh::Block(t), v) => hcl::ser::Block::new(Ser(t, v)).serialize(s),
            (Sh::Labeled(t), v) => hcl::ser::LabeledBlock::new(Ser(t, v)).serialize(s),
            (Sh::Seq(t), Dv::Seq(l)) => {
                let mut q = s.serialize_seq(Some(l.len()))?;
                for v in l {
                    q.serialize_element(&Ser(t, v))?;
                }
                q.end()
            }
            (Sh::Tup(ts), v) => {
                let mut q = s.serialize_tuple(ts.len())?;
                for (t, v) in ts.iter().zip(list(v)) {
                    q.serialize_element(&Ser(t, v))?;
                }
                q.end()
            }
            (Sh::TupS(n, ts), v) => {
                let mut q = s.serialize_tuple_struct(n, ts.len())?;
                for (t, v) in ts.iter().zip(list(v)) {
                    q.serialize_field(&Ser(t, v))?;
                }
                q.end()
            }
            (Sh::Map(k, t), Dv::Map(m)) => {
                let mut q = s.serialize_map(Some(m.len()))?;
                for (i, (x, y)) in m.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&Ser(k, x), &Ser(t, y))?;
                    } else {
                        q.serialize_key(&Ser(k, x))?;
                        q.serialize_value(&Ser(t, y))?;
                    }
                }
                q.end()
            }
            (Sh::Struct(n, fs, ts), v) => {
                let mut q = s.serialize_struct(n, ts.len())?;
                for ((f, t), v) in fs.iter().zip(ts).zip(list(v)) {
                    q.serialize_field(f, &Ser(t, v))?;
                }
                q.end()
            }
            (Sh::Enum(n, names, vars), Dv::Var(i, v)) => {
                let (name, idx) = (names[*i], *i as u32);
                match &vars[*i] {
                    Var::Unit => s.serialize_unit_variant(n, idx, name),
                    Var::New(t) => s.serialize_newtype_variant(n, idx, name, &Ser(t, v)),
                    Var::Tup(ts) => {
                        let mut q = s.serialize_tuple_variant(n, idx, name, ts.len())?;
                        for (t, v) in ts.iter().zip(list(v)) {
                            q.serialize_field(&Ser(t, v))?;
                        }
                        q.end()
                    }
                    Var::Struct(fs, ts) => {
                        let mut q = s.serialize_struct_variant(n, idx, name, ts.len())?;
                        for ((f, t), v) in fs.iter().zip(ts).zip(list(v)) {
                            q.serialize_field(f, &Ser(t, v))?;
                        }
                        q.end()
                    }
                }
            }
            (Sh::Node(n), Dv::Node(e)) => {
                use hcl::expr::{Operation as Op, TemplateExpr as Tpl};
                use hcl::Expression as X;
                match (n, e) {
                    (Node::Expr, e) => e.serialize(s),
                    (Node::Variable, X::Variable(x)) => x.serialize(s),
                    (Node::Traversal, X::Traversal(x)) => x.serialize(s),
                    (Node::FuncCall, X::FuncCall(x)) => x.serialize(s),
                    (Node::Conditional, X::Conditional(x)) => x.serialize(s),
                    (Node::Operation, X::Operation(x)) => x.serialize(s),
                    (Node::Unary, X::Operation(x)) => match &**x {
                        Op::Unary(x) => x.serialize(s),
                        Op::Binary(_) => panic!("{x:?}"),
                    },
                    (Node::Binary, X::Operation(x)) => match &**x {
                        Op::Binary(x) => x.serialize(s),
                        Op::Unary(_) => panic!("{x:?}"),
                    },
                    (Node::For, X::ForExpr(x)) => x.serialize(s),
                    (Node::Template, X::TemplateExpr(x)) => x.serialize(s),
                    (Node::Heredoc, X::TemplateExpr(x)) => match &**x {
                        Tpl::Heredoc(x) => x.serialize(s),
                        Tpl::QuotedString(_) => panic!("{x:?}"),
                    },
                    (Node::Number, X::Number(x)) => x.serialize(s),
                    (Node::Ident, X::String(x)) => hcl::Identifier::unchecked(x.as_str()).serialize(s),
                    (Node::Text, X::String(x)) => match x.parse::<hcl::Template>() {
                        Ok(t) => t.serialize(s),
                        Err(e) => Err(serde::ser::Error::custom(e)),
                    },
                    (n, e) => panic!("{e:?} is no {n:?}"),
                }
            }
            (t, v) => panic!("value {v:?} is not of shape {t:?}"),
        }
    }
}

// --- Deserialization ------------------------------------------------------------------------------

#[derive(Clone, Copy)]
pub struct De<'a>(pub &'a Sh);

impl<'de> DeserializeSeed<'de> for De<'_> {
    type Value = Dv;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Dv, D::Error> {
        match self.0 {
            Sh::Unit => d.deserialize_unit(Vis(self.0)),
            Sh::UnitStruct(n) => d.deserialize_unit_struct(n, Vis(self.0)),
            Sh::Bool => d.deserialize_bool(Vis(self.0)),
            Sh::I(8) => d.deserialize_i8(Vis(self.0)),
            Sh::I(16) => d.deserialize_i16(Vis(self.0)),
            Sh::I(32) => d.deserialize_i32(Vis(self.0)),
            Sh::I(64) => d.deserialize_i64(Vis(self.0)),
            Sh::I(_) => d.deserialize_i128(Vis(self.0)),
            Sh::U(8) => d.deserialize_u8(Vis(self.0)),
            Sh::U(16) => d.deserialize_u16(Vis(self.0)),
            Sh::U(32) => d.deserialize_u32(Vis(self.0)),
            Sh::U(64) => d.deserialize_u64(Vis(self.0)),
            Sh::U(_) => d.deserialize_u128(Vis(self.0)),
            Sh::F32 => d.deserialize_f32(Vis(self.0)),
            Sh::F64 => d.deserialize_f64(Vis(self.0)),
            Sh::Char => d.deserialize_char(Vis(self.0)),
            Sh::Str => d.deserialize_string(Vis(self.0)),
            Sh::Bytes => d.deserialize_byte_buf(Vis(self.0)),
            Sh::Opt(_) => d.deserialize_option(Vis(self.0)),
            Sh::New(n, _) => d.deserialize_newtype_struct(n, Vis(self.0)),
            Sh::Block(t) => {
                let _g = Scope::new(t);
                hcl::ser::Block::<Dyn>::deserialize(d).map(|b| b.into_inner().0)
            }
            Sh::Labeled(t) => {
                let _g = Scope::new(t);
                hcl::ser::LabeledBlock::<Dyn>::deserialize(d).map(|b| b.into_inner().0)
            }
            Sh::Seq(_) => d.deserialize_seq(Vis(self.0)),
            Sh::Tup(ts) => d.deserialize_tuple(ts.len(), Vis(self.0)),
            Sh::TupS(n, ts) => d.deserialize_tuple_struct(n, ts.len(), Vis(self.0)),
            Sh::Map(..) => d.deserialize_map(Vis(self.0)),
            Sh::Struct(n, fs, _) => d.deserialize_struct(n, fs, Vis(self.0)),
            Sh::Enum(n, fs, _) => d.deserialize_enum(n, fs, Vis(self.0)),
            Sh::Ignored => d.deserialize_ignored_any(IgnoredAny).map(|_| Dv::Unit),
            Sh::Node(n) => {
                use hcl::expr as x;
                Ok(Dv::Node(match n {
                    Node::Expr => hcl::Expression::deserialize(d)?,
                    Node::Variable => x::Variable::deserialize(d)?.into(),
                    Node::Traversal => x::Traversal::deserialize(d)?.into(),
                    Node::FuncCall => x::FuncCall::deserialize(d)?.into(),
                    Node::Conditional => x::Conditional::deserialize(d)?.into(),
                    Node::Operation => x::Operation::deserialize(d)?.into(),
                    Node::Unary => x::UnaryOp::deserialize(d)?.into(),
                    Node::Binary => x::BinaryOp::deserialize(d)?.into(),
                    Node::For => x::ForExpr::deserialize(d)?.into(),
                    Node::Template => x::TemplateExpr::deserialize(d)?.into(),
                    Node::Heredoc => x::Heredoc::deserialize(d)?.into(),
                    Node::Number => hcl::Expression::Number(hcl::Number::deserialize(d)?),
                    Node::Ident => hcl::Expression::String(hcl::Identifier::deserialize(d)?.into_inner()),
                    Node::Text => hcl::Expression::String(hcl::Template::deserialize(d)?.to_string()),
                }))
            }
        }
    }
}

struct Vis<'a>(&'a Sh);

/// `signed` and `bits` as in the shapes.
fn int<E: de::Error>(sh: &Sh, v: i128) -> Result<Dv, E> {
    let bad = || E::invalid_value(de::Unexpected::Other("integer"), &"an integer in range");
    match sh {
        Sh::I(b) => {
            if *b < 128 && (v < -(1i128 << (b - 1)) || v >= (1i128 << (b - 1))) {
                return Err(bad());
            }
            Ok(Dv::I(v))
        }
        Sh::U(b) => {
            let u = u128::try_from(v).map_err(|_| bad())?;
            if *b < 128 && u >= (1u128 << b) {
                return Err(bad());
            }
            Ok(Dv::U(u))
        }
        Sh::F64 => Ok(Dv::F(v as f64)),
        Sh::F32 => Ok(Dv::F(f64::from(v as f32))),
        _ => Err(E::invalid_type(de::Unexpected::Other("integer"), &"something else")),
    }
}

fn seq_of<'de, A: SeqAccess<'de>>(ts: &[Sh], a: &mut A) -> Result<Dv, A::Error> {
    let mut out = Vec::new();
    for t in ts {
        match a.next_element_seed(De(t))? {
            Some(v) => out.push(v),
            None => return Err(de::Error::invalid_length(out.len(), &"more elements")),
        }
    }
    Ok(Dv::Seq(out))
}

fn fields_of<'de, A: MapAccess<'de>>(fs: &'static [&'static str], ts: &[Sh], a: &mut A) -> Result<Dv, A::Error> {
    let mut out: Vec<Option<Dv>> = vec![None; ts.len()];
    while let Some(f) = a.next_key_seed(Name(fs, false))? {
        match f {
            Some(i) => {
                if out[i].is_some() {
                    return Err(de::Error::duplicate_field(fs[i]));
                }
                out[i] = Some(a.next_value_seed(De(&ts[i]))?);
            }
            None => {
                a.next_value::<IgnoredAny>()?;
            }
        }
    }
    let mut r = Vec::new();
    for (i, v) in out.into_iter().enumerate() {
        match v {
            Some(v) => r.push(v),
            None if matches!(ts[i], Sh::Opt(_)) => r.push(Dv::None),
            None => return Err(de::Error::missing_field(fs[i])),
        }
    }
    Ok(Dv::Seq(r))
}

impl<'de> Visitor<'de> for Vis<'_> {
    type Value = Dv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "shape {:?}", self.0)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Dv, E> {
        match self.0 {
            Sh::Unit | Sh::UnitStruct(_) => Ok(Dv::Unit),
            Sh::Opt(_) => Ok(Dv::None),
            _ => Err(E::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Dv, E> {
        match self.0 {
            Sh::Opt(_) => Ok(Dv::None),
            _ => Err(E::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Dv, D::Error> {
        match self.0 {
            Sh::Opt(t) => De(t).deserialize(d).map(|v| Dv::Some(Box::new(v))),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Dv, E> {
        match self.0 {
            Sh::Bool => Ok(Dv::Bool(v)),
            _ => Err(E::invalid_type(de::Unexpected::Bool(v), &self)),
        }
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Dv, E> {
        int(self.0, i128::from(v))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Dv, E> {
        int(self.0, i128::from(v))
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<Dv, E> {
        int(self.0, v)
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<Dv, E> {
        match i128::try_from(v) {
            Ok(v) => int(self.0, v),
            Err(_) if *self.0 == Sh::U(128) => Ok(Dv::U(v)),
            Err(_) => Err(E::invalid_type(de::Unexpected::Other("u128"), &self)),
        }
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Dv, E> {
        match self.0 {
            Sh::F64 => Ok(Dv::F(v)),
            Sh::F32 => Ok(Dv::F(f64::from(v as f32))),
            _ => Err(E::invalid_type(de::Unexpected::Float(v), &self)),
        }
    }
    fn visit_char<E: de::Error>(self, v: char) -> Result<Dv, E> {
        match self.0 {
            Sh::Char => Ok(Dv::Char(v)),
            Sh::Str => Ok(Dv::Str(v.to_string())),
            _ => Err(E::invalid_type(de::Unexpected::Char(v), &self)),
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Dv, E> {
        match self.0 {
            Sh::Str => Ok(Dv::Str(v.to_string())),
            Sh::Bytes => Ok(Dv::Bytes(v.as_bytes().to_vec())),
            Sh::Char => {
                let mut it = v.chars();
                match (it.next(), it.next()) {
                    (Some(c), None) => Ok(Dv::Char(c)),
                    _ => Err(E::invalid_value(de::Unexpected::Str(v), &self)),
                }
            }
            _ => Err(E::invalid_type(de::Unexpected::Str(v), &self)),
        }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Dv, E> {
        match self.0 {
            Sh::Bytes => Ok(Dv::Bytes(v.to_vec())),
            _ => Err(E::invalid_type(de::Unexpected::Bytes(v), &self)),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Dv, D::Error> {
        match self.0 {
            Sh::New(_, t) => De(t).deserialize(d),
            _ => Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Dv, A::Error> {
        match self.0 {
            Sh::Seq(t) => {
                let mut out = Vec::new();
                while let Some(v) = a.next_element_seed(De(t))? {
                    out.push(v);
                }
                Ok(Dv::Seq(out))
            }
            Sh::Bytes => {
                let mut out = Vec::new();
                while let Some(v) = a.next_element::<u8>()? {
                    out.push(v);
                }
                Ok(Dv::Bytes(out))
            }
            Sh::Tup(ts) | Sh::TupS(_, ts) | Sh::Struct(_, _, ts) => seq_of(ts, &mut a),
            Sh::New(_, t) => match a.next_element_seed(De(t))? {
                Some(v) => Ok(v),
                None => Err(de::Error::invalid_length(0, &"one element")),
            },
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Dv, A::Error> {
        match self.0 {
            Sh::Map(k, t) => {
                let mut out: Vec<(Dv, Dv)> = Vec::new();
                let mut i = 0;
                loop {
                    let e = if i % 2 == 0 {
                        a.next_entry_seed(De(k), De(t))?
                    } else {
                        match a.next_key_seed(De(k))? {
                            Some(x) => Some((x, a.next_value_seed(De(t))?)),
                            None => None,
                        }
                    };
                    let Some((x, y)) = e else { break };
                    i += 1;
                    match out.iter_mut().find(|(z, _)| *z == x) {
                        Some(o) => o.1 = y,
                        None => out.push((x, y)),
                    }
                }
                Ok(Dv::Map(out))
            }
            Sh::Struct(_, fs, ts) => fields_of(fs, ts, &mut a),
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Dv, A::Error> {
        let Sh::Enum(_, names, vars) = self.0 else { return Err(de::Error::invalid_type(de::Unexpected::Enum, &self)) };
        let (i, v) = a.variant_seed(Name(names, true))?;
        let Some(i) = i else { return Err(de::Error::custom("no variant")) };
        use de::VariantAccess;
        let x = match &vars[i] {
            Var::Unit => {
                v.unit_variant()?;
                Dv::Unit
            }
            Var::New(t) => v.newtype_variant_seed(De(t))?,
            Var::Tup(ts) => v.tuple_variant(ts.len(), Fields(&[], ts))?,
            Var::Struct(fs, ts) => v.struct_variant(fs, Fields(fs, ts))?,
        };
        Ok(Dv::Var(i, Box::new(x)))
    }
}

struct Fields<'a>(&'static [&'static str], &'a [Sh]);

impl<'de> Visitor<'de> for Fields<'_> {
    type Value = Dv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "variant with {:?}", self.0)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Dv, A::Error> {
        seq_of(self.1, &mut a)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Dv, A::Error> {
        if self.0.is_empty() && !self.1.is_empty() {
            return Err(de::Error::invalid_type(de::Unexpected::Map, &self));
        }
        fields_of(self.0, self.1, &mut a)
    }
}

/// The name of a field or variant.
struct Name(&'static [&'static str], bool);

impl<'de> DeserializeSeed<'de> for Name {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}

impl Visitor<'_> for Name {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "one of {:?}", self.0)
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> {
        match usize::try_from(v) {
            Ok(i) if i < self.0.len() => Ok(Some(i)),
            _ if self.1 => Err(E::invalid_value(de::Unexpected::Unsigned(v), &self)),
            _ => Ok(None),
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        match self.0.iter().position(|x| *x == v) {
            Some(i) => Ok(Some(i)),
            None if self.1 => Err(E::unknown_variant(v, self.0)),
            None => Ok(None),
        }
    }
}

/// A type whose shape is the one in scope.
#[derive(Clone, Debug, PartialEq)]
pub struct Dyn(pub Dv);

impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> {
        let sh = SHAPE.with(|s| s.borrow().clone()).expect("no shape in scope");
        De(&sh).deserialize(d).map(Dyn)
    }
}

pub struct Scope(Option<Sh>);

impl Scope {
    pub fn new(sh: &Sh) -> Scope {
        Scope(SHAPE.with(|s| s.borrow_mut().replace(sh.clone())))
    }
}

impl Drop for Scope {
    fn drop(&mut self) {
        let old = self.0.take();
        SHAPE.with(|s| *s.borrow_mut() = old);
    }
}

/// Reads something in the given shape.
pub fn read<R>(sh: &Sh, f: impl FnOnce() -> Result<Dyn, R>) -> Result<Dv, R> {
    let _g = Scope::new(sh);
    f().map(|d| d.0)
}

// --- Generation -----------------------------------------------------------------------------------

const NAMES: [&str; 16] = ["a", "b", "c", "name", "type", "for", "if", "null", "true", "in", "_x", "é", "a-b", "Foo", "endif", "x1"];
const ODD: [&str; 10] = ["a b", "", "${x}", "\"q\"", "1", "a.b", "%{ if x }", "\\n", "new\nline", "$${"];

pub struct ShGen<'a> {
    pub s: &'a mut Src,
    pub fuel: i32,
    /// Names of fields and keys may be anything.
    pub odd: bool,
    /// Shapes may contain 128 bit integers.
    pub wide: bool,
    pub bytes: bool,
    /// Types of the crate itself.
    pub nodes: bool,
}

impl<'a> ShGen<'a> {
    pub fn new(s: &'a mut Src) -> ShGen<'a> {
        let fuel = (s.size / 3).clamp(2, 20) as i32;
        ShGen { s, fuel, odd: true, wide: false, bytes: true, nodes: false }
    }

    fn name(&mut self, odd: bool) -> &'static str {
        if odd && self.s.chance(1, 4) {
            self.s.pick(&ODD)
        } else {
            self.s.pick(&NAMES)
        }
    }

    fn names(&mut self, n: usize, odd: bool) -> &'static [&'static str] {
        let mut l: Vec<&'static str> = Vec::new();
        for i in 0..n {
            let x = self.name(odd);
            l.push(if l.contains(&x) { intern(&format!("f{i}")) } else { x });
        }
        intern_list(&l)
    }

    fn shs(&mut self, min: usize, depth: usize) -> Vec<Sh> {
        let mut l = Vec::new();
        while l.len() < min || self.s.more(l.len(), 2, 5) {
            l.push(self.shape(depth));
        }
        l
    }

    /// Shapes that a body may have.
    pub fn top(&mut self) -> Sh {
        match self.s.weighted(&[6, 4, 2, 1]) {
            0 => self.strukt(3, false),
            1 => {
                let k = self.ident_key();
                Sh::Map(Box::new(k), Box::new(self.shape(2)))
            }
            2 => self.enumeration(3, false, false),
            _ => Sh::New(self.s.pick(&NAMES), Box::new(self.top())),
        }
    }

    fn strukt(&mut self, depth: usize, odd: bool) -> Sh {
        let ts = self.shs(0, depth - 1);
        Sh::Struct(self.s.pick(&NAMES), self.names(ts.len(), odd), ts)
    }

    fn ident_key(&mut self) -> Sh {
        match self.s.weighted(&[8, 1]) {
            0 => Sh::Str,
            _ => self.unit_enum(false),
        }
    }

    fn unit_enum(&mut self, odd: bool) -> Sh {
        let n = self.s.range(1, 4);
        Sh::Enum(self.s.pick(&NAMES), self.names(n, odd), vec![Var::Unit; n])
    }

    fn enumeration(&mut self, depth: usize, unit: bool, odd: bool) -> Sh {
        let n = self.s.range(1, 4);
        let names = self.names(n, odd);
        let mut vars = Vec::new();
        for _ in 0..n {
            vars.push(match self.s.below(4) {
                0 if unit => Var::Unit,
                1 => Var::Tup(self.shs(2, depth.saturating_sub(1))),
                2 => {
                    let ts = self.shs(0, depth.saturating_sub(1));
                    Var::Struct(self.names(ts.len(), self.odd), ts)
                }
                _ => Var::New(self.shape(depth.saturating_sub(1))),
            });
        }
        Sh::Enum(self.s.pick(&NAMES), names, vars)
    }

    fn key(&mut self) -> Sh {
        match self.s.weighted(&[8, 2, 2, 1, 1, 1]) {
            0 => Sh::Str,
            1 => Sh::I(*self.s.pick(&[8, 16, 32, 64])),
            2 => Sh::U(*self.s.pick(&[8, 16, 32, 64])),
            3 => self.unit_enum(self.odd),
            4 => Sh::Char,
            _ => Sh::New(self.s.pick(&NAMES), Box::new(Sh::Str)),
        }
    }

    pub fn scalar(&mut self) -> Sh {
        if self.nodes && self.s.chance(1, 2) {
            return Sh::Node(if self.s.chance(1, 3) { Node::Expr } else { *self.s.pick(&NODES) });
        }
        match self.s.weighted(&[4, 3, 3, 3, 1, 3, 2, 1, 1, 1]) {
            0 => Sh::Str,
            1 => Sh::Bool,
            2 => Sh::I(*self.s.pick(if self.wide { &[8, 16, 32, 64, 128][..] } else { &[8, 16, 32, 64][..] })),
            3 => Sh::U(*self.s.pick(if self.wide { &[8, 16, 32, 64, 128][..] } else { &[8, 16, 32, 64][..] })),
            4 => Sh::F32,
            5 => Sh::F64,
            6 => Sh::Char,
            7 => Sh::Unit,
            8 => Sh::UnitStruct(self.s.pick(&NAMES)),
            _ if self.bytes => Sh::Bytes,
            _ => Sh::Str,
        }
    }

    /// Shapes of bodies with blocks.
    pub fn body(&mut self, depth: usize) -> Sh {
        let mut ts = Vec::new();
        while self.s.more(ts.len(), 2, 5) {
            let t = match self.s.weighted(&[3, 3, 3]) {
                _ if depth == 0 => self.scalar(),
                0 => self.shape(2),
                1 => Sh::Block(Box::new(self.block(depth - 1))),
                _ => Sh::Labeled(Box::new(self.labeled(depth - 1, 2))),
            };
            ts.push(if matches!(t, Sh::Block(_) | Sh::Labeled(_)) && self.s.chance(1, 4) { Sh::Opt(Box::new(t)) } else { t });
        }
        Sh::Struct(self.s.pick(&NAMES), self.names(ts.len(), false), ts)
    }

    fn bodies(&mut self, depth: usize) -> Vec<Sh> {
        let mut l = vec![self.body(depth), self.body(depth)];
        while self.s.more(l.len(), 2, 3) {
            l.push(self.body(depth));
        }
        l
    }

    /// What a block wrapper holds.
    fn block(&mut self, depth: usize) -> Sh {
        match self.s.weighted(&[6, 2, 2, 2, 1]) {
            0 => self.body(depth),
            1 => {
                let k = self.ident_key();
                Sh::Map(Box::new(k), Box::new(self.shape(2)))
            }
            // A single element would be read as such.
            2 => Sh::Tup(self.bodies(depth)),
            3 => {
                let n = self.s.range(1, 3);
                let names = self.names(n, false);
                let mut vars = Vec::new();
                for _ in 0..n {
                    vars.push(match self.s.below(3) {
                        0 => Var::New(self.shape(2)),
                        1 => Var::Tup(self.bodies(depth)),
                        _ => match self.body(depth) {
                            Sh::Struct(_, fs, ts) => Var::Struct(fs, ts),
                            _ => unreachable!(),
                        },
                    });
                }
                Sh::Enum(self.s.pick(&NAMES), names, vars)
            }
            _ => Sh::New(self.s.pick(&NAMES), Box::new(self.body(depth))),
        }
    }

    /// What a block with up to that many labels holds.
    fn labeled(&mut self, depth: usize, labels: usize) -> Sh {
        let t = if labels > 1 && self.s.chance(1, 3) {
            Sh::Labeled(Box::new(self.labeled(depth, labels - 1)))
        } else {
            match self.block(depth) {
                // For the names in it.
                t @ Sh::Map(..) => Sh::Block(Box::new(t)),
                t => t,
            }
        };
        match self.s.weighted(&[4, 2, 2]) {
            0 => Sh::Map(Box::new(self.label_key()), Box::new(t)),
            1 => {
                let mut ts = vec![t];
                while self.s.more(ts.len(), 2, 3) {
                    ts.push(self.body(depth));
                }
                Sh::Struct(self.s.pick(&NAMES), self.names(ts.len(), true), ts)
            }
            _ => {
                let n = self.s.range(1, 3);
                let names = self.names(n, true);
                let mut vars = vec![Var::New(t)];
                for _ in 1..n {
                    vars.push(match self.s.below(2) {
                        0 => Var::Tup(self.bodies(depth)),
                        _ => {
                            let ts = self.bodies(depth);
                            Var::Struct(self.names(ts.len(), true), ts)
                        }
                    });
                }
                Sh::Enum(self.s.pick(&NAMES), names, vars)
            }
        }
    }

    fn label_key(&mut self) -> Sh {
        match self.s.weighted(&[5, 1, 1]) {
            0 => Sh::Str,
            1 => self.unit_enum(true),
            _ => Sh::New(self.s.pick(&NAMES), Box::new(Sh::Str)),
        }
    }

    pub fn shape(&mut self, depth: usize) -> Sh {
        self.fuel -= 1;
        if depth == 0 || self.fuel <= 0 {
            return self.scalar();
        }
        match self.s.weighted(&[5, 3, 2, 3, 2, 1, 3, 3, 4]) {
            0 => self.scalar(),
            1 => {
                // Two kinds of absence look alike.
                let t = self.shape(depth - 1);
                if nullable(&t) {
                    t
                } else {
                    Sh::Opt(Box::new(t))
                }
            }
            2 => Sh::New(self.s.pick(&NAMES), Box::new(self.shape(depth - 1))),
            3 => Sh::Seq(Box::new(self.shape(depth - 1))),
            4 => Sh::Tup(self.shs(1, depth - 1)),
            5 => Sh::TupS(self.s.pick(&NAMES), self.shs(2, depth - 1)),
            6 => {
                let k = self.key();
                Sh::Map(Box::new(k), Box::new(self.shape(depth - 1)))
            }
            7 => self.strukt(depth, self.odd),
            _ => self.enumeration(depth, true, self.odd),
        }
    }
}

/// Whether some value of the shape is written as null.
pub fn nullable(t: &Sh) -> bool {
    match t {
        Sh::Unit | Sh::UnitStruct(_) | Sh::Opt(_) | Sh::Ignored | Sh::Node(Node::Expr) => true,
        Sh::New(_, t) | Sh::Block(t) | Sh::Labeled(t) => nullable(t),
        _ => false,
    }
}

/// An expression as it is read from its own text.
fn node(s: &mut Src, n: Node) -> hcl::Expression {
    let mut g = crate::gen::Gen::new(s);
    g.fuel = g.fuel.min(8);
    let e = crate::build::d_expr(&g.node(n));
    if matches!(n, Node::Number | Node::Ident) {
        return e;
    }
    if let (Node::Text, hcl::Expression::String(t)) = (n, &e) {
        return t.parse::<hcl::Template>().map_or(e, |t| hcl::Expression::String(t.to_string()));
    }
    // What was built may be written as something else with the same meaning.
    let b = hcl::Body::builder().add_attribute(("a", e.clone())).build();
    match hcl::format::to_string(&b).ok().and_then(|t| t.parse::<hcl::Body>().ok()).and_then(|b| b.into_attributes().next()) {
        Some(a) => a.expr,
        None => e,
    }
}

pub fn value(s: &mut Src, t: &Sh, idents: bool) -> Dv {
    match t {
        Sh::Node(n) => Dv::Node(node(s, *n)),
        Sh::Unit | Sh::UnitStruct(_) | Sh::Ignored => Dv::Unit,
        Sh::Bool => Dv::Bool(s.bool()),
        Sh::I(b) => {
            let b = (*b).min(64);
            let (lo, hi) = (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1);
            Dv::I(match s.below(4) {
                0 => s.below(10) as i128,
                1 => -(s.below(10) as i128),
                2 => *s.pick(&[lo, hi, lo + 1, hi - 1]),
                _ => (i128::from(s.draw(0) as i64)).rem_euclid(hi - lo + 1) + lo,
            })
        }
        Sh::U(b) => {
            let hi = (1u128 << (*b).min(64)) - 1;
            Dv::U(match s.below(3) {
                0 => s.below(10) as u128,
                1 => *s.pick(&[hi, hi - 1, hi / 2, hi / 2 + 1]),
                _ => u128::from(s.draw(0)) & hi,
            })
        }
        Sh::F32 => {
            let f = f32::from_bits(s.draw(1 << 32) as u32);
            Dv::F(match s.below(3) {
                0 => s.below(10) as f64,
                1 => f64::from(s.below(1000) as f32 / 8.0),
                _ if f.is_finite() => f64::from(f),
                _ => 0.5,
            })
        }
        Sh::F64 => {
            let f = f64::from_bits(s.draw(0));
            Dv::F(match s.below(4) {
                0 => s.below(10) as f64,
                1 => s.below(100_000) as f64 / 8.0 - 3000.0,
                2 => *s.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e21, 1e-7, 0.1, 1e15, 1e16, 9_007_199_254_740_993.0, 18_446_744_073_709_551_616.0, -9_223_372_036_854_775_808.0]),
                _ if f.is_finite() => f,
                _ => 1.5,
            })
        }
        Sh::Char => Dv::Char(crate::gen::ch(s)),
        Sh::Str => Dv::Str(if idents {
            s.pick(&NAMES).to_string()
        } else {
            match s.below(3) {
                0 => s.pick(&NAMES).to_string(),
                1 => s.pick(&ODD).to_string(),
                _ => crate::gen::text(s, 12),
            }
        }),
        Sh::Bytes => {
            let mut b = Vec::new();
            while s.more(b.len(), 3, 10) {
                b.push(s.draw(256) as u8);
            }
            Dv::Bytes(b)
        }
        Sh::Opt(t) => {
            if s.chance(2, 3) {
                Dv::Some(Box::new(value(s, t, idents)))
            } else {
                Dv::None
            }
        }
        Sh::New(_, t) => value(s, t, idents),
        // Attribute names are identifiers.
        Sh::Block(t) => value(s, t, true),
        Sh::Labeled(t) => match value(s, t, false) {
            // No labels, no blocks.
            Dv::Map(m) if m.is_empty() => match &**t {
                Sh::Map(k, t) => Dv::Map(vec![(value(s, k, false), value(s, t, false))]),
                _ => unreachable!(),
            },
            v => v,
        },
        Sh::Seq(t) => {
            let mut l = Vec::new();
            while s.more(l.len(), 2, 5) {
                l.push(value(s, t, false));
            }
            Dv::Seq(l)
        }
        Sh::Tup(ts) | Sh::TupS(_, ts) | Sh::Struct(_, _, ts) => Dv::Seq(ts.iter().map(|t| value(s, t, false)).collect()),
        Sh::Map(k, t) => {
            let mut m: Vec<(Dv, Dv)> = Vec::new();
            while s.more(m.len(), 2, 5) {
                let x = value(s, k, idents);
                if m.iter().any(|(y, _)| *y == x) {
                    continue;
                }
                m.push((x, value(s, t, false)));
            }
            Dv::Map(m)
        }
        Sh::Enum(_, _, vars) => {
            let i = s.below(vars.len());
            Dv::Var(
                i,
                Box::new(match &vars[i] {
                    Var::Unit => Dv::Unit,
                    Var::New(t) => value(s, t, false),
                    Var::Tup(ts) | Var::Struct(_, ts) => Dv::Seq(ts.iter().map(|t| value(s, t, false)).collect()),
                }),
            )
        }
    }
}

pub fn size(t: &Sh) -> usize {
    1 + match t {
        Sh::Opt(t) | Sh::New(_, t) | Sh::Seq(t) | Sh::Block(t) | Sh::Labeled(t) => size(t),
        Sh::Tup(ts) | Sh::TupS(_, ts) | Sh::Struct(_, _, ts) => ts.iter().map(size).sum(),
        Sh::Map(k, t) => size(k) + size(t),
        Sh::Enum(_, _, vs) => vs
            .iter()
            .map(|v| match v {
                Var::Unit => 1,
                Var::New(t) => size(t),
                Var::Tup(ts) | Var::Struct(_, ts) => ts.iter().map(size).sum(),
            })
            .sum(),
        _ => 0,
    }
}

/// Whether some part of the shape satisfies the predicate.
pub fn any(t: &Sh, f: &dyn Fn(&Sh) -> bool) -> bool {
    f(t) || match t {
        Sh::Opt(t) | Sh::New(_, t) | Sh::Seq(t) | Sh::Block(t) | Sh::Labeled(t) => any(t, f),
        Sh::Tup(ts) | Sh::TupS(_, ts) | Sh::Struct(_, _, ts) => ts.iter().any(|t| any(t, f)),
        Sh::Map(k, t) => any(k, f) || any(t, f),
        Sh::Enum(_, _, vs) => vs.iter().any(|v| match v {
            Var::Unit => false,
            Var::New(t) => any(t, f),
            Var::Tup(ts) | Var::Struct(_, ts) => ts.iter().any(|t| any(t, f)),
        }),
        _ => false,
    }
}
