//! C21: structures and nodes inside of data, written as documents.

use crate::build;
use crate::engine::{no_panic, Case, Fail, Res};
use crate::gen::Gen;
use crate::src::Src;
use crate::{ensure, fail};
use hcl::expr::ObjectKey;
use hcl::{Attribute, Body, Expression, Identifier, Structure};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleVariant, Serializer};

const NAMES: [&str; 6] = ["a", "resource", "b-2", "null", "for", "über"];

/// Something with the parts of a document.
#[derive(Debug)]
enum Item {
    Structure(Structure),
    Attribute(hcl::Attribute),
    Block(hcl::Block),
    Body(Body),
    Object(Expression),
    Map(Vec<(String, Field)>),
    Struct(Vec<(&'static str, Field)>),
    Seq(Vec<Item>),
    Tuple(Vec<Item>),
    Some(Box<Item>),
    New(Box<Item>),
    /// An enum variant with a value.
    Variant(&'static str, Box<Field>),
    VariantStruct(&'static str, Vec<(&'static str, Field)>),
    VariantTuple(&'static str, Vec<Expression>),
}

/// What a name stands for.
#[derive(Debug)]
enum Field {
    Expr(Expression),
    Text(String),
    /// A structure where only an expression can be.
    Data(Item),
    Some(Box<Field>),
    Block(Item),
    Labeled(Labeled),
    /// With the functions for `serialize_with`.
    WithBlock(Item),
    WithLabeled(Labeled),
    Doubly(Vec<(String, Labeled)>),
    /// Serialized as the result of another serialization.
    Nested(Inner, Item),
}

/// A serialization within a `Serialize` implementation.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Inner {
    ToString,
    ToVec,
    ToValue,
    ToExpression,
    Body,
    Format,
    /// Of something that cannot be serialized.
    Refused,
    /// Of something that panics.
    Panic,
    /// By another crate.
    Foreign,
}

struct Bad(bool, Expression);

impl Serialize for Bad {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut o = s.serialize_struct("Bad", 2)?;
        o.serialize_field("a", &self.1)?;
        assert!(self.0, "bad");
        Err(serde::ser::Error::custom("bad"))
    }
}

impl Inner {
    /// What it results in, as something to serialize.
    fn run(self, i: &Item) -> Expression {
        let text = |r: hcl::Result<String>| Expression::String(r.unwrap_or_else(|e| format!("error: {e}")));
        match self {
            Inner::ToString => text(hcl::to_string(i)),
            Inner::ToVec => text(hcl::to_vec(i).map(|v| String::from_utf8(v).unwrap())),
            Inner::ToValue => hcl::to_value(i).map_or_else(|e| text(Err(e)), Expression::from),
            Inner::ToExpression => hcl::to_expression(i).unwrap_or_else(|e| text(Err(e))),
            Inner::Body => text(Body::from_serializable(i).and_then(|b| hcl::format::to_string(&b))),
            Inner::Format => text(match i {
                Item::Structure(x) => hcl::format::to_string(x),
                Item::Body(x) => hcl::format::to_string(x),
                Item::Object(x) => hcl::format::to_string(x),
                i => hcl::format::to_string(&Body(top(i))),
            }),
            Inner::Refused => text(hcl::to_string(&Bad(true, Expression::Bool(true)))),
            Inner::Panic => text(no_panic(|| hcl::to_string(&Bad(false, Expression::Bool(true)))).unwrap_or_else(|_| Ok("panic".to_owned()))),
            Inner::Foreign => Expression::String(serde_json::to_string(i).unwrap_or_else(|e| format!("error: {e}"))),
        }
    }
}

#[derive(Debug)]
enum Labeled {
    Map(Vec<(String, Item)>),
    Struct(Vec<(&'static str, Item)>),
    Seq(Vec<Labeled>),
    Deeper(Vec<(String, Labeled)>),
    Variant(&'static str, Box<Item>),
    VariantStruct(&'static str, Vec<(&'static str, Item)>),
    VariantTuple(&'static str, Vec<Item>),
}

fn map<S: Serializer, K: Serialize, V: Serialize>(s: S, m: &[(K, V)]) -> Result<S::Ok, S::Error> {
    let mut o = s.serialize_map(Some(m.len()))?;
    for (k, v) in m {
        o.serialize_entry(k, v)?;
    }
    o.end()
}

fn fields<S: Serializer, V: Serialize>(s: S, m: &[(&'static str, V)]) -> Result<S::Ok, S::Error> {
    let mut o = s.serialize_struct("Fields", m.len())?;
    for (k, v) in m {
        o.serialize_field(k, v)?;
    }
    o.end()
}

fn variant_fields<S: Serializer, V: Serialize>(s: S, n: &'static str, m: &[(&'static str, V)]) -> Result<S::Ok, S::Error> {
    let mut o = s.serialize_struct_variant("Variants", 1, n, m.len())?;
    for (k, v) in m {
        o.serialize_field(k, v)?;
    }
    o.end()
}

fn variant_tuple<S: Serializer, V: Serialize>(s: S, n: &'static str, l: &[V]) -> Result<S::Ok, S::Error> {
    let mut o = s.serialize_tuple_variant("Variants", 2, n, l.len())?;
    for v in l {
        o.serialize_field(v)?;
    }
    o.end()
}

fn seq<S: Serializer, V: Serialize>(s: S, l: &[V]) -> Result<S::Ok, S::Error> {
    let mut o = s.serialize_seq(Some(l.len()))?;
    for v in l {
        o.serialize_element(v)?;
    }
    o.end()
}

impl Serialize for Item {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Item::Structure(x) => x.serialize(s),
            Item::Attribute(x) => x.serialize(s),
            Item::Block(x) => x.serialize(s),
            Item::Body(x) => x.serialize(s),
            Item::Object(x) => x.serialize(s),
            Item::Map(m) => map(s, m),
            Item::Struct(m) => fields(s, m),
            Item::Seq(l) => seq(s, l),
            Item::Tuple(l) => {
                let mut o = s.serialize_tuple(l.len())?;
                for v in l {
                    o.serialize_element(v)?;
                }
                o.end()
            }
            Item::Some(x) => s.serialize_some(x),
            Item::New(x) => s.serialize_newtype_struct("New", x),
            Item::Variant(n, f) => s.serialize_newtype_variant("Variants", 0, n, f),
            Item::VariantStruct(n, m) => variant_fields(s, n, m),
            Item::VariantTuple(n, l) => variant_tuple(s, n, l),
        }
    }
}

impl Serialize for Field {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Field::Expr(x) => x.serialize(s),
            Field::Text(x) => x.serialize(s),
            Field::Data(x) => x.serialize(s),
            Field::Some(x) => s.serialize_some(x),
            Field::Block(x) => hcl::ser::Block::new(x).serialize(s),
            Field::Labeled(x) => hcl::ser::LabeledBlock::new(x).serialize(s),
            Field::WithBlock(x) => hcl::ser::block(x, s),
            Field::WithLabeled(x) => hcl::ser::labeled_block(x, s),
            Field::Doubly(l) => hcl::ser::doubly_labeled_block(l.iter().map(|(k, v)| (k, v)), s),
            Field::Nested(how, i) => how.run(i).serialize(s),
        }
    }
}

impl Serialize for Labeled {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Labeled::Map(m) => map(s, m),
            Labeled::Struct(m) => fields(s, m),
            Labeled::Seq(l) => seq(s, l),
            Labeled::Deeper(m) => {
                let mut o = s.serialize_map(None)?;
                for (k, v) in m {
                    o.serialize_entry(k, &hcl::ser::LabeledBlock::new(v))?;
                }
                o.end()
            }
            Labeled::Variant(n, i) => s.serialize_newtype_variant("Variants", 0, n, i),
            Labeled::VariantStruct(n, m) => variant_fields(s, n, m),
            Labeled::VariantTuple(n, l) => variant_tuple(s, n, l),
        }
    }
}

// --- what is expected -----------------------------------------------------------------------------

fn id(s: &str) -> Identifier {
    Identifier::new(s).unwrap()
}

fn attr(n: &str, e: Expression) -> Structure {
    Structure::Attribute(Attribute { key: id(n), expr: e })
}

fn block(n: &str, labels: Vec<String>, body: Vec<Structure>) -> Structure {
    let labels = labels.into_iter().map(hcl::BlockLabel::String).collect();
    Structure::Block(hcl::Block { identifier: id(n), labels, body: Body(body) })
}

fn all<K: AsRef<str>>(m: &[(K, Field)]) -> Vec<Structure> {
    m.iter().flat_map(|(k, f)| named(k.as_ref(), f)).collect()
}

/// The structures it is at the top of a document.
fn top(i: &Item) -> Vec<Structure> {
    match i {
        Item::Structure(x) => vec![x.clone()],
        Item::Attribute(x) => vec![x.clone().into()],
        Item::Block(x) => vec![x.clone().into()],
        Item::Body(x) => x.0.clone(),
        Item::Object(Expression::Object(o)) => o.iter().map(|(k, e)| attr(&name_of(k), e.clone())).collect(),
        Item::Map(m) => all(m),
        Item::Struct(m) => all(m),
        Item::Seq(l) | Item::Tuple(l) => l.iter().flat_map(top).collect(),
        Item::Some(x) | Item::New(x) => top(x),
        Item::Variant(n, f) => named(n, f),
        Item::VariantStruct(n, m) => vec![block(n, vec![], all(m))],
        Item::VariantTuple(n, l) => vec![attr(n, l.clone().into())],
        Item::Object(e) => panic!("{e:?}"),
    }
}

fn name_of(k: &ObjectKey) -> String {
    match k {
        ObjectKey::Identifier(i) => i.to_string(),
        ObjectKey::Expression(Expression::String(s)) => s.clone(),
        k => panic!("{k:?}"),
    }
}

/// Under that name.
fn named(n: &str, f: &Field) -> Vec<Structure> {
    match f {
        Field::Expr(e) => vec![attr(n, e.clone())],
        Field::Text(t) => vec![attr(n, Expression::String(t.clone()))],
        Field::Data(i) => vec![attr(n, data(i))],
        Field::Some(f) => named(n, f),
        Field::Block(i) | Field::WithBlock(i) => blocks(n, i),
        Field::Labeled(l) | Field::WithLabeled(l) => labeled(n, l),
        Field::Doubly(m) => m.iter().flat_map(|(k, l)| under(k, labeled(n, l))).collect(),
        // Whatever it is on its own.
        Field::Nested(how, i) => vec![attr(n, how.run(i))],
    }
}

/// As blocks of that name.
fn blocks(n: &str, i: &Item) -> Vec<Structure> {
    match i {
        Item::Seq(l) | Item::Tuple(l) => l.iter().flat_map(|i| blocks(n, i)).collect(),
        Item::Some(x) | Item::New(x) => blocks(n, x),
        // Handled for its own name.
        Item::VariantTuple(..) => panic!("{i:?}"),
        i => vec![block(n, vec![], top(i))],
    }
}

fn under(l: &str, mut s: Vec<Structure>) -> Vec<Structure> {
    for s in &mut s {
        if let Structure::Block(b) = s {
            b.labels.insert(0, hcl::BlockLabel::String(l.to_owned()));
        }
    }
    s
}

fn labeled(n: &str, l: &Labeled) -> Vec<Structure> {
    match l {
        Labeled::Map(m) => m.iter().flat_map(|(k, i)| under(k, blocks(n, i))).collect(),
        Labeled::Struct(m) => m.iter().flat_map(|(k, i)| under(k, blocks(n, i))).collect(),
        Labeled::Seq(l) => l.iter().flat_map(|l| labeled(n, l)).collect(),
        Labeled::Deeper(m) => m.iter().flat_map(|(k, l)| under(k, labeled(n, l))).collect(),
        Labeled::Variant(v, i) => under(v, blocks(n, i)),
        Labeled::VariantStruct(v, m) => under(v, m.iter().flat_map(|(k, i)| under(k, blocks(n, i))).collect()),
        Labeled::VariantTuple(v, l) => under(v, l.iter().flat_map(|i| blocks(n, i)).collect()),
    }
}

/// The data of structures, as an expression.
fn data(i: &Item) -> Expression {
    match i {
        Item::Structure(x) => of_structure(x),
        Item::Attribute(x) => of_structure(&x.clone().into()),
        Item::Block(x) => of_structure(&x.clone().into()),
        Item::Body(x) => of_body(x),
        Item::Object(x) => x.clone(),
        Item::Seq(l) | Item::Tuple(l) => Expression::Array(l.iter().map(data).collect()),
        Item::Some(x) | Item::New(x) => data(x),
        i => panic!("{i:?}"),
    }
}

fn object<const N: usize>(l: [(&str, Expression); N]) -> Expression {
    Expression::Object(l.into_iter().map(|(k, e)| (ObjectKey::from(k), e)).collect())
}

fn of_body(b: &Body) -> Expression {
    Expression::Array(b.iter().map(of_structure).collect())
}

fn of_structure(s: &Structure) -> Expression {
    let text = |t: &str| Expression::String(t.to_owned());
    match s {
        Structure::Attribute(a) => object([("key", text(&a.key)), ("expr", a.expr.clone())]),
        Structure::Block(b) => {
            let labels = b.labels.iter().map(|l| {
                let (k, t) = match l {
                    hcl::BlockLabel::Identifier(i) => ("Identifier", text(i)),
                    hcl::BlockLabel::String(s) => ("String", text(s)),
                };
                Expression::Object([(ObjectKey::Identifier(id(k)), t)].into_iter().collect())
            });
            object([("identifier", text(&b.identifier)), ("labels", Expression::Array(labels.collect())), ("body", of_body(&b.body))])
        }
    }
}

// --- generation -----------------------------------------------------------------------------------

struct ItemGen<'a> {
    s: &'a mut Src,
    /// With other serializations within.
    nested: bool,
    /// Something HCL has no syntax for is still to be put somewhere.
    bad: bool,
}

impl ItemGen<'_> {
    fn name(&mut self) -> &'static str {
        self.s.pick(&NAMES)
    }

    fn names(&mut self, max: usize) -> Vec<&'static str> {
        let mut l = Vec::new();
        while self.s.more(l.len(), 2, max) {
            let n = self.name();
            // Structures of the same name are fine, fields of a struct are not.
            if !l.contains(&n) {
                l.push(n);
            }
        }
        l
    }

    fn label(&mut self) -> String {
        crate::gen::text(self.s, 4)
    }

    fn labels(&mut self) -> Vec<String> {
        if self.s.big > 0 && self.s.bool() {
            let n = self.s.range(4, 40);
            self.s.big = self.s.big.saturating_sub(n);
            return (0..n).map(|i| format!("l{i}")).collect();
        }
        let mut l = Vec::new();
        while self.s.more(l.len(), 2, 3) {
            let n = self.label();
            if !l.contains(&n) {
                l.push(n);
            }
        }
        l
    }

    fn expr(&mut self) -> Expression {
        build::d_expr(&Gen::new(self.s).value())
    }

    fn structure(&mut self) -> Structure {
        loop {
            let b = build::d_body(&Gen::new(self.s).body(1));
            if let Some(s) = b.0.into_iter().next() {
                return s;
            }
            if !self.s.bool() {
                return attr(self.name(), self.expr());
            }
        }
    }

    /// A node with the parts of a body.
    fn node(&mut self) -> Item {
        match self.s.below(5) {
            0 => Item::Structure(self.structure()),
            1 => Item::Attribute(hcl::Attribute { key: id(self.name()), expr: self.expr() }),
            2 => {
                let b = Gen::new(self.s).block(1);
                match build::d_structure(&crate::model::S::Block(b)) {
                    Structure::Block(b) => Item::Block(b),
                    s => panic!("{s:?}"),
                }
            }
            3 => Item::Body(build::d_body(&Gen::new(self.s).body(2))),
            _ => self.object(),
        }
    }

    fn object(&mut self) -> Item {
        let names = self.names(3);
        let mut o = hcl::expr::Object::new();
        for n in names {
            let k = if self.s.bool() { ObjectKey::Identifier(id(n)) } else { ObjectKey::from(n) };
            let e = self.expr();
            o.insert(k, e);
        }
        Item::Object(o.into())
    }

    fn fields(&mut self, depth: usize) -> Vec<(&'static str, Field)> {
        let l = self.names(3);
        l.into_iter().map(|n| (n, self.field(depth))).collect()
    }

    /// `seqs`: whether it may be a sequence, and an enum variant with several values.
    fn item(&mut self, depth: usize) -> Item {
        if depth == 0 || self.s.chance(2, 5) {
            if self.bad && self.s.chance(2, 3) {
                return self.bad();
            }
            return self.node();
        }
        let d = depth - 1;
        match self.s.below(8) {
            0 => {
                let l = self.fields(d);
                Item::Map(l.into_iter().map(|(k, v)| (k.to_owned(), v)).collect())
            }
            1 | 2 => Item::Struct(self.fields(d)),
            3 => Item::Seq(self.items(d)),
            4 => Item::Tuple(self.items(d)),
            5 => Item::Some(Box::new(self.item(d))),
            6 => Item::New(Box::new(self.item(d))),
            _ if self.s.bool() => Item::Variant(self.name(), Box::new(self.field(d))),
            _ => Item::VariantStruct(self.name(), self.fields(d)),
        }
    }

    /// No name of anything in HCL.
    fn odd_name(&mut self) -> &'static str {
        self.s.pick(&["a b", "", "1a", "-a", "a.b", "a/b", "é ", "a\n", "a\"", "0", "$", "${a}", " a", "a=", "\u{200b}"])
    }

    /// Something of which no body can consist.
    fn bad(&mut self) -> Item {
        self.bad = false;
        match self.s.below(5) {
            0 | 1 => {
                let Item::Object(Expression::Object(o)) = self.object() else { unreachable!() };
                let mut l: Vec<_> = o.into_iter().collect();
                let at = self.s.range(0, l.len());
                let k = match self.s.below(4) {
                    0 => ObjectKey::Expression(match self.expr() {
                        Expression::String(_) => Expression::Null,
                        e => e,
                    }),
                    _ => ObjectKey::from(self.odd_name()),
                };
                let e = self.expr();
                l.insert(at, (k, e));
                Item::Object(Expression::Object(l.into_iter().collect()))
            }
            2 => Item::Object(match self.expr() {
                Expression::Object(_) | Expression::Array(_) => Expression::Bool(true),
                e => e,
            }),
            3 => {
                let mut l = self.fields(1);
                let at = self.s.range(0, l.len());
                l.insert(at, (self.odd_name(), Field::Expr(Expression::Null)));
                if self.s.bool() {
                    Item::Struct(l)
                } else {
                    Item::Map(l.into_iter().map(|(k, v)| (k.to_owned(), v)).collect())
                }
            }
            _ => {
                let l = self.fields(1);
                if self.s.bool() {
                    Item::VariantStruct(self.odd_name(), l)
                } else {
                    Item::Variant(self.odd_name(), Box::new(Field::Expr(Expression::Null)))
                }
            }
        }
    }

    fn items(&mut self, depth: usize) -> Vec<Item> {
        let mut l = Vec::new();
        while self.s.more(l.len(), 2, 4) {
            l.push(self.item(depth));
        }
        l
    }

    fn data(&mut self, depth: usize) -> Item {
        if depth > 0 && self.s.chance(1, 3) {
            let mut l = Vec::new();
            while self.s.more(l.len(), 1, 3) {
                l.push(self.data(depth - 1));
            }
            return if self.s.bool() { Item::Seq(l) } else { Item::Tuple(l) };
        }
        self.node()
    }

    fn field(&mut self, depth: usize) -> Field {
        if self.nested && self.s.chance(1, 3) {
            use Inner::*;
            let how = *self.s.pick(&[ToString, ToVec, ToValue, ToExpression, Body, Format, Refused, Panic, Foreign]);
            return Field::Nested(how, self.item(depth.saturating_sub(1)));
        }
        match self.s.below(12) {
            0 | 1 => Field::Expr(self.expr()),
            2 => Field::Text(self.label()),
            3 | 4 => Field::Data(self.data(depth)),
            5 => Field::Some(Box::new(self.field(depth))),
            6 | 7 => Field::Block(self.item(depth)),
            8 => Field::Labeled(self.labeled(depth)),
            9 => Field::WithBlock(self.item(depth)),
            10 => Field::WithLabeled(self.labeled(depth)),
            _ => {
                let l = self.labels();
                Field::Doubly(l.into_iter().map(|k| (k, self.labeled(depth))).collect())
            }
        }
    }

    fn labeled(&mut self, depth: usize) -> Labeled {
        let d = depth.saturating_sub(1);
        let n = if depth == 0 { 2 } else { 7 };
        match self.s.below(n) {
            0 => {
                let l = self.labels();
                Labeled::Map(l.into_iter().map(|k| (k, self.item(d))).collect())
            }
            1 => {
                let l = self.names(3);
                Labeled::Struct(l.into_iter().map(|k| (k, self.item(d))).collect())
            }
            2 => {
                let mut l = Vec::new();
                while self.s.more(l.len(), 2, 3) {
                    l.push(self.labeled(d));
                }
                Labeled::Seq(l)
            }
            3 => {
                let l = self.labels();
                Labeled::Deeper(l.into_iter().map(|k| (k, self.labeled(d))).collect())
            }
            4 => Labeled::Variant(self.name(), Box::new(self.item(d))),
            5 => {
                let l = self.names(3);
                Labeled::VariantStruct(self.name(), l.into_iter().map(|k| (k, self.item(d))).collect())
            }
            _ => Labeled::VariantTuple(self.name(), self.items(d)),
        }
    }
}

fn size(b: &[Structure]) -> usize {
    b.iter()
        .map(|s| match s {
            Structure::Attribute(_) => 1,
            Structure::Block(b) => 1 + size(&b.body.0),
        })
        .sum()
}

pub fn c21_structures(s: &mut Src, c: &mut Case) -> Res {
    let mut g = ItemGen { s, nested: false, bad: false };
    let item = if g.s.chance(1, 12) {
        let mut l = Vec::new();
        while g.s.more(l.len(), 2, 3) {
            l.push(g.expr());
        }
        Item::VariantTuple(g.name(), l)
    } else {
        g.item(3)
    };
    c.input = format!("{item:?}");
    let want = top(&item);
    c.nontrivial = size(&want) >= 2;
    c.label(match &item {
        Item::Structure(_) | Item::Attribute(_) | Item::Block(_) | Item::Body(_) | Item::Object(_) => "node",
        Item::Seq(_) | Item::Tuple(_) => "sequence",
        Item::Map(_) | Item::Struct(_) => "fields",
        Item::Some(_) | Item::New(_) => "wrapped",
        _ => "variant",
    });
    for (n, l) in [("Data(", "data"), ("Block(", "block"), ("Labeled(", "labeled"), ("Doubly(", "doubly"), ("Deeper(", "deeper")] {
        if c.input.contains(n) {
            c.label(l);
        }
    }
    let want = Body(want);
    let got = no_panic(|| Body::from_serializable(&item)).map_err(|m| Fail::new("panic", m))?;
    let got = got.map_err(|e| Fail::new("refused", format!("{e}")))?;
    ensure!(got == want, "body", "{got:?}\nis not {want:?}");
    let text = hcl::to_string(&item).map_err(|e| Fail::new("to_string", format!("{e}")))?;
    let of_want = hcl::format::to_string(&want).map_err(|e| Fail::new("format", format!("{e}")))?;
    ensure!(text == of_want, "text", "{text}\nis not\n{of_want}");
    // As data elsewhere.
    let e = Expression::Array(want.iter().map(of_structure).collect());
    let got = no_panic(|| hcl::to_expression(&want)).map_err(|m| Fail::new("panic", m))?;
    match got {
        Ok(x) => ensure!(x == e, "expression", "{x:?}\nis not {e:?}"),
        Err(e) => fail!("refused", "to_expression: {e}"),
    }
    Ok(())
}

/// What HCL has no syntax for is refused, wherever it is, rather than written as something else.
pub fn c21_refused(s: &mut Src, c: &mut Case) -> Res {
    let mut g = ItemGen { s, nested: false, bad: true };
    let mut item = g.item(3);
    if g.bad {
        let bad = g.bad();
        item = match g.s.below(4) {
            0 => bad,
            1 => Item::Seq(vec![item, bad]),
            2 => Item::Tuple(vec![bad, item]),
            _ => Item::Struct(vec![("good", Field::Block(item)), ("bad", Field::Block(bad))]),
        };
    }
    c.input = format!("{item:?}");
    c.nontrivial = c.input.len() > 60;
    let got = no_panic(|| Body::from_serializable(&item)).map_err(|m| Fail::new("panic", m))?;
    if let Ok(b) = got {
        fail!("accepted", "it becomes {b:?}");
    }
    let got = no_panic(|| hcl::to_string(&item)).map_err(|m| Fail::new("panic", m))?;
    if let Ok(text) = got {
        fail!("accepted", "it is written as\n{text}");
    }
    // Nothing is left behind of it.
    let good = Structure::Attribute(hcl::Attribute::new("a", hcl::expr::Variable::sanitized("b")));
    let text = hcl::to_string(&good).map_err(|e| Fail::new("afterwards", format!("{e}")))?;
    ensure!(text == "a = b\n", "afterwards", "{text}");
    Ok(())
}

/// Serializations within others neither see nor disturb them.
pub fn c21_nested(s: &mut Src, c: &mut Case) -> Res {
    let mut g = ItemGen { s, nested: true, bad: false };
    let item = match g.s.below(3) {
        0 => Item::Struct(g.fields(3)),
        1 => Item::VariantStruct(g.name(), g.fields(3)),
        _ => g.item(3),
    };
    c.input = format!("{item:?}");
    let want = no_panic(|| Body(top(&item))).map_err(|m| Fail::new("panic", m))?;
    for (n, l) in [
        ("Nested(ToString", "string"),
        ("Nested(ToVec", "vec"),
        ("Nested(ToValue", "value"),
        ("Nested(ToExpr", "expression"),
        ("Nested(Body", "body"),
        ("Nested(Format", "format"),
        ("Nested(Refused", "refused"),
        ("Nested(Panic", "panic"),
        ("Nested(Foreign", "foreign"),
    ] {
        if c.input.contains(n) {
            c.label(l);
        }
    }
    c.nontrivial = c.input.contains("Nested(") && size(&want.0) >= 2;
    let got = no_panic(|| Body::from_serializable(&item)).map_err(|m| Fail::new("panic", m))?;
    let got = got.map_err(|e| Fail::new("refused", format!("{e}")))?;
    if got != want && c.input.contains("Nested(Foreign") && format!("{got:?}").contains("handle") {
        fail!("foreign-handle", "{got:?}\nis not {want:?}");
    }
    ensure!(got == want, "body", "{got:?}\nis not {want:?}");
    // And outside of any, nodes are data again.
    let json = |b: &Body| serde_json::to_string(b).map_err(|e| Fail::new("json", format!("{e}")));
    ensure!(json(&got)? == json(&want)? && !json(&got)?.contains("{\"handle\""), "outside", "{}", json(&got)?);
    Ok(())
}
