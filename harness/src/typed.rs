//! Typed data, see spec/Serde.tla: the values of a type of the specification
//! are serialized and deserialized by the calls that the derived code makes.
use crate::{text::*, tree::*};
use serde::{
    de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor},
    ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant},
    Deserialize, Serialize, Serializer,
};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashMap},
    fmt,
    sync::{LazyLock, Mutex},
};
use yaml_peg::{
    dump, parse,
    parser::Anchors,
    repr::{ArcRepr, RcRepr, Repr},
    serde::{from_str, to_arc_node, to_node, to_string, InlineList, Optional, SerdeError, Stringify},
    Map, Node, Yaml,
};

/// Names live as long as the program.
pub fn name(s: &str) -> &'static str {
    static NAMES: LazyLock<Mutex<HashMap<String, &'static str>>> = LazyLock::new(Default::default);
    *NAMES.lock().unwrap().entry(s.to_string()).or_insert_with(|| Box::leak(s.to_string().into_boxed_str()))
}

fn names(v: &Value) -> &'static [&'static str] {
    static NAMES: LazyLock<Mutex<HashMap<Vec<String>, &'static [&'static str]>>> = LazyLock::new(Default::default);
    let v: Vec<String> = list(v).iter().map(|f| decode(&f["n"])).collect();
    let mut m = NAMES.lock().unwrap();
    if let Some(s) = m.get(&v) {
        return s;
    }
    let s: &'static [&'static str] = Box::leak(v.iter().map(|s| name(s)).collect());
    m.insert(v, s);
    s
}

fn list(v: &Value) -> &[Value] {
    v.as_array().map_or(&[], |v| v)
}

pub fn kind(ty: &Value) -> &str {
    ty["k"].as_str().unwrap_or_else(|| panic!("harness: type {ty}"))
}

fn tree(k: &str, v: Value) -> Value {
    json!({"k": k, "v": v})
}

fn text(v: &Value) -> String {
    decode(&v["v"])
}

// ------------------------------------------------------------ native types

/// A type of this program that has a type of the specification.
trait Native: Sized {
    fn show(&self) -> Value;
    fn make(v: &Value) -> Self;
}

macro_rules! scalar {
    ($($ty:ty => $k:literal)+) => { $(impl Native for $ty {
        fn show(&self) -> Value {
            tree($k, encode(&self.to_string()))
        }
        fn make(v: &Value) -> Self {
            text(v).parse().unwrap_or_else(|_| panic!("harness: {} {v}", $k))
        }
    })+ };
}
scalar! {
    bool => "bool" i8 => "i8" i16 => "i16" i32 => "i32" i64 => "i64" i128 => "i128" u8 => "u8" u16 => "u16" u32 => "u32" u64 => "u64" u128 => "u128"
    f32 => "f32" f64 => "f64" char => "char" String => "string"
}

impl Native for () {
    fn show(&self) -> Value {
        tree("unit", json!([]))
    }
    fn make(_: &Value) -> Self {}
}

impl<T: Native> Native for Option<T> {
    fn show(&self) -> Value {
        match self {
            Some(t) => tree("some", t.show()),
            None => tree("none", json!([])),
        }
    }
    fn make(v: &Value) -> Self {
        (v["k"] == "some").then(|| T::make(&v["v"]))
    }
}

impl<T: Native> Native for Vec<T> {
    fn show(&self) -> Value {
        tree("seq", self.iter().map(T::show).collect())
    }
    fn make(v: &Value) -> Self {
        list(&v["v"]).iter().map(T::make).collect()
    }
}

impl<A: Native, B: Native> Native for (A, B) {
    fn show(&self) -> Value {
        tree("tup", json!([self.0.show(), self.1.show()]))
    }
    fn make(v: &Value) -> Self {
        (A::make(&v["v"][0]), B::make(&v["v"][1]))
    }
}

impl<T: Native + fmt::Debug, const N: usize> Native for [T; N] {
    fn show(&self) -> Value {
        tree("tup", self.iter().map(T::show).collect())
    }
    fn make(v: &Value) -> Self {
        list(&v["v"]).iter().map(T::make).collect::<Vec<_>>().try_into().unwrap()
    }
}

fn alt(i: u8, v: Value) -> Value {
    json!({"k": "alt", "i": i, "v": v})
}

impl<T: Native> Native for InlineList<T> {
    fn show(&self) -> Value {
        match self {
            Self::List(v) => alt(1, v.show()),
            Self::Inline(t) => alt(2, t.show()),
        }
    }
    fn make(v: &Value) -> Self {
        if v["i"] == 1 {
            Self::List(Native::make(&v["v"]))
        } else {
            Self::Inline(T::make(&v["v"]))
        }
    }
}

impl<T: Native> Native for Optional<T> {
    fn show(&self) -> Value {
        match self {
            Self::Bool(v) => alt(1, v.show()),
            Self::Some(t) => alt(2, t.show()),
        }
    }
    fn make(v: &Value) -> Self {
        if v["i"] == 1 {
            Self::Bool(Native::make(&v["v"]))
        } else {
            Self::Some(T::make(&v["v"]))
        }
    }
}

impl Native for Stringify {
    fn show(&self) -> Value {
        match self {
            Self::Bool(v) => alt(1, v.show()),
            Self::Int(v) => alt(2, v.show()),
            Self::Float(v) => alt(3, v.show()),
            Self::Str(v) => alt(4, v.show()),
        }
    }
    fn make(v: &Value) -> Self {
        let x = &v["v"];
        match v["i"].as_u64() {
            Some(1) => Self::Bool(Native::make(x)),
            Some(2) => Self::Int(Native::make(x)),
            Some(3) => Self::Float(Native::make(x)),
            _ => Self::Str(Native::make(x)),
        }
    }
}

macro_rules! record {
    ($(#[$a:meta])* struct $ty:ident { $($(#[$b:meta])* $f:ident: $t:ty,)+ }) => {
        #[derive(Serialize, Deserialize, Debug, PartialEq)]
        $(#[$a])*
        pub struct $ty { $($(#[$b])* $f: $t,)+ }

        impl Native for $ty {
            fn show(&self) -> Value {
                tree("struct", json!([$(self.$f.show()),+]))
            }
            fn make(v: &Value) -> Self {
                let mut v = list(&v["v"]).iter();
                Self { $($f: Native::make(v.next().unwrap()),)+ }
            }
        }
    };
}

record! { struct Point { x: i32, y: f64, } }
record! {
    struct Config {
        name: String,
        #[serde(rename = "max size")]
        max: u8,
        note: Option<String>,
        #[serde(default)]
        list: Vec<i64>,
        at: Point,
        mode: Mode,
        #[serde(default = "seven")]
        seven: u16,
    }
}
record! {
    #[serde(deny_unknown_fields)]
    struct Strict { a: bool, b: Option<char>, }
}

fn seven() -> u16 {
    7
}

impl Default for Point {
    fn default() -> Self {
        Self { x: -1, y: 0.5 }
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[serde(rename_all = "kebab-case")]
pub enum Mode {
    PlainOne,
    New(i64),
    Tup(bool, String),
    Rec { a: Option<u32>, b: Vec<i8> },
}

impl Native for Mode {
    fn show(&self) -> Value {
        let (i, v) = match self {
            Self::PlainOne => (1, json!([])),
            Self::New(n) => (2, n.show()),
            Self::Tup(a, b) => (3, json!([a.show(), b.show()])),
            Self::Rec { a, b } => (4, json!([a.show(), b.show()])),
        };
        json!({"k": "var", "i": i, "v": v})
    }
    fn make(x: &Value) -> Self {
        let v = &x["v"];
        match x["i"].as_u64() {
            Some(1) => Self::PlainOne,
            Some(2) => Self::New(Native::make(v)),
            Some(3) => Self::Tup(Native::make(&v[0]), Native::make(&v[1])),
            _ => Self::Rec { a: Native::make(&v[0]), b: Native::make(&v[1]) },
        }
    }
}

/// Alternatives without names.
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[serde(untagged)]
pub enum Any {
    Nil(()),
    Flag(bool),
    Num(i64),
    Real(f64),
    List(Vec<Option<i64>>),
    At(Point),
    Pair(i8, String),
    Rec { a: Option<u32>, b: Vec<i8> },
    Text(String),
}

impl Native for Any {
    fn show(&self) -> Value {
        match self {
            Self::Nil(()) => alt(1, ().show()),
            Self::Flag(v) => alt(2, v.show()),
            Self::Num(v) => alt(3, v.show()),
            Self::Real(v) => alt(4, v.show()),
            Self::List(v) => alt(5, v.show()),
            Self::At(v) => alt(6, v.show()),
            Self::Pair(a, b) => alt(7, tree("tup", json!([a.show(), b.show()]))),
            Self::Rec { a, b } => alt(8, tree("struct", json!([a.show(), b.show()]))),
            Self::Text(v) => alt(9, v.show()),
        }
    }
    fn make(x: &Value) -> Self {
        let v = &x["v"];
        match x["i"].as_u64() {
            Some(1) => Self::Nil(()),
            Some(2) => Self::Flag(Native::make(v)),
            Some(3) => Self::Num(Native::make(v)),
            Some(4) => Self::Real(Native::make(v)),
            Some(5) => Self::List(Native::make(v)),
            Some(6) => Self::At(Native::make(v)),
            Some(7) => Self::Pair(Native::make(&v["v"][0]), Native::make(&v["v"][1])),
            Some(8) => Self::Rec { a: Native::make(&v["v"][0]), b: Native::make(&v["v"][1]) },
            _ => Self::Text(Native::make(v)),
        }
    }
}

macro_rules! variants {
    ($(#[$a:meta])* enum $ty:ident { $($n:literal => $name:ident $(($($x:ident: $t:ty),+))? $({$($f:ident: $u:ty),*})?,)+ } new $new:literal) => {
        #[derive(Serialize, Deserialize, Debug, PartialEq)]
        $(#[$a])*
        pub enum $ty { $($name $(($($t),+))? $({$($f: $u),*})?,)+ }

        impl Native for $ty {
            fn show(&self) -> Value {
                let (i, v): (u64, Vec<Value>) = match self {
                    $(Self::$name $(($($x),+))? $({$($f),*})? => ($n, vec![$($($x.show()),+)? $($($f.show()),*)?]),)+
                };
                json!({"k": "var", "i": i, "v": if i == $new { v[0].clone() } else { Value::Array(v) }})
            }
            #[allow(unused)]
            fn make(x: &Value) -> Self {
                let i = x["i"].as_u64().unwrap();
                let v = if i == $new { vec![x["v"].clone()] } else { list(&x["v"]).to_vec() };
                let mut v = v.iter();
                match i {
                    $($n => {
                        $($(let $x: $t = Native::make(v.next().unwrap());)+)?
                        $($(let $f: $u = Native::make(v.next().unwrap());)*)?
                        Self::$name $(($($x),+))? $({$($f),*})?
                    })+
                    i => panic!("harness: variant {i}"),
                }
            }
        }
    };
}

variants! {
    #[serde(tag = "type")]
    enum Tagged { 1 => Off, 2 => At(p: Point), 3 => Rec { a: Option<u32>, b: Vec<i8> }, 4 => Empty {}, } new 2
}
variants! {
    #[serde(tag = "t", content = "c")]
    enum Beside { 1 => Off, 2 => New(n: i64), 3 => Tup(a: bool, b: String), 4 => Rec { a: Option<u32>, b: Vec<i8> }, } new 2
}
record! {
    struct Flat {
        name: String,
        #[serde(flatten)]
        at: Point,
        #[serde(flatten)]
        rest: Entries,
    }
}

/// Pairs in order.
#[derive(Debug, PartialEq)]
pub struct Entries(Vec<(String, Any)>);

impl Serialize for Entries {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_map(self.0.iter().map(|(k, v)| (k, v)))
    }
}

impl<'d> Deserialize<'d> for Entries {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        struct Pairs;
        impl<'d> Visitor<'d> for Pairs {
            type Value = Entries;

            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("pairs")
            }

            fn visit_map<A: MapAccess<'d>>(self, mut a: A) -> Result<Entries, A::Error> {
                let mut v = vec![];
                while let Some(p) = a.next_entry()? {
                    v.push(p);
                }
                Ok(Entries(v))
            }
        }
        d.deserialize_map(Pairs)
    }
}

impl Native for Entries {
    fn show(&self) -> Value {
        tree("map", self.0.iter().map(|(k, v)| json!([k.show(), v.show()])).collect())
    }
    fn make(v: &Value) -> Self {
        Self(list(&v["v"]).iter().map(|p| (Native::make(&p[0]), Native::make(&p[1]))).collect())
    }
}

/// Call with the native type of the name.
macro_rules! native {
    ($n:expr, $f:ident $(, $a:expr)*) => {
        match $n {
            "Point" => $f::<Point, _>($($a),*),
            "Config" => $f::<Config, _>($($a),*),
            "Strict" => $f::<Strict, _>($($a),*),
            "Mode" => $f::<Mode, _>($($a),*),
            "Any" => $f::<Any, _>($($a),*),
            "Tagged" => $f::<Tagged, _>($($a),*),
            "Beside" => $f::<Beside, _>($($a),*),
            "Flat" => $f::<Flat, _>($($a),*),
            "Stringify" => $f::<Stringify, _>($($a),*),
            "InlineList<i64>" => $f::<InlineList<i64>, _>($($a),*),
            "InlineList<String>" => $f::<InlineList<String>, _>($($a),*),
            "InlineList<bool>" => $f::<InlineList<bool>, _>($($a),*),
            "InlineList<Point>" => $f::<InlineList<Point>, _>($($a),*),
            "InlineList<Vec<u8>>" => $f::<InlineList<Vec<u8>>, _>($($a),*),
            "Optional<String>" => $f::<Optional<String>, _>($($a),*),
            "Optional<i32>" => $f::<Optional<i32>, _>($($a),*),
            "Optional<bool>" => $f::<Optional<bool>, _>($($a),*),
            "Optional<Point>" => $f::<Optional<Point>, _>($($a),*),
            "Optional<Vec<i64>>" => $f::<Optional<Vec<i64>>, _>($($a),*),
            "Optional<InlineList<String>>" => $f::<Optional<InlineList<String>>, _>($($a),*),
            "InlineList<Optional<i32>>" => $f::<InlineList<Optional<i32>>, _>($($a),*),
            "Optional<()>" => $f::<Optional<()>, _>($($a),*),
            "InlineList<()>" => $f::<InlineList<()>, _>($($a),*),
            "Optional<char>" => $f::<Optional<char>, _>($($a),*),
            "Optional<f64>" => $f::<Optional<f64>, _>($($a),*),
            "InlineList<f64>" => $f::<InlineList<f64>, _>($($a),*),
            "InlineList<u64>" => $f::<InlineList<u64>, _>($($a),*),
            "InlineList<(i8,String)>" => $f::<InlineList<(i8, String)>, _>($($a),*),
            "Optional<(i8,String)>" => $f::<Optional<(i8, String)>, _>($($a),*),
            "InlineList<Stringify>" => $f::<InlineList<Stringify>, _>($($a),*),
            "Optional<Stringify>" => $f::<Optional<Stringify>, _>($($a),*),
            "InlineList<Mode>" => $f::<InlineList<Mode>, _>($($a),*),
            "Optional<Mode>" => $f::<Optional<Mode>, _>($($a),*),
            "InlineList<Option<i64>>" => $f::<InlineList<Option<i64>>, _>($($a),*),
            "Optional<Option<i64>>" => $f::<Optional<Option<i64>>, _>($($a),*),
            "InlineList<u8>" => $f::<InlineList<u8>, _>($($a),*),
            "Optional<u64>" => $f::<Optional<u64>, _>($($a),*),
            "InlineList<char>" => $f::<InlineList<char>, _>($($a),*),
            "Option<Point>" => $f::<Option<Point>, _>($($a),*),
            "Vec<Point>" => $f::<Vec<Point>, _>($($a),*),
            "[u8;3]" => $f::<[u8; 3], _>($($a),*),
            "(i8,String)" => $f::<(i8, String), _>($($a),*),
            "bool" => $f::<bool, _>($($a),*),
            "i8" => $f::<i8, _>($($a),*),
            "i16" => $f::<i16, _>($($a),*),
            "i32" => $f::<i32, _>($($a),*),
            "i64" => $f::<i64, _>($($a),*),
            "i128" => $f::<i128, _>($($a),*),
            "u8" => $f::<u8, _>($($a),*),
            "u16" => $f::<u16, _>($($a),*),
            "u32" => $f::<u32, _>($($a),*),
            "u64" => $f::<u64, _>($($a),*),
            "u128" => $f::<u128, _>($($a),*),
            "f32" => $f::<f32, _>($($a),*),
            "f64" => $f::<f64, _>($($a),*),
            "char" => $f::<char, _>($($a),*),
            "string" => $f::<String, _>($($a),*),
            "unit" => $f::<(), _>($($a),*),
            n => panic!("harness: native type {n}"),
        }
    };
}

fn native_name(ty: &Value) -> Option<&str> {
    match ty["rust"].as_str() {
        None if ty["a"].is_null() && ty["v"].is_null() && ty["f"].is_null() && !matches!(kind(ty), "bytes" | "ustruct") => ty["k"].as_str(),
        n => n,
    }
}

// -------------------------------------------------------------- serializing

/// A value of the type.
pub struct Val<'a>(pub &'a Value, pub &'a Value);

fn native_ser<T: Native + Serialize, S: Serializer>(v: &Value, s: S) -> Result<S::Ok, S::Error> {
    T::make(v).serialize(s)
}

impl Serialize for Val<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let Val(ty, x) = *self;
        let v = &x["v"];
        if let Some(n) = native_name(ty) {
            return native!(n, native_ser, x, s);
        }
        let items = || list(v).iter().zip(list(&ty["v"]));
        match kind(ty) {
            "bytes" => s.serialize_bytes(&list(v).iter().map(u8::make).collect::<Vec<_>>()),
            "ustruct" => s.serialize_unit_struct("Unit"),
            "opt" => match x["k"].as_str() {
                Some("none") => s.serialize_none(),
                _ => s.serialize_some(&Val(&ty["a"], v)),
            },
            "new" => s.serialize_newtype_struct("New", &Val(&ty["a"], v)),
            "seq" => {
                let mut q = s.serialize_seq(if list(v).len() % 2 == 0 { Some(list(v).len()) } else { None })?;
                list(v).iter().try_for_each(|v| q.serialize_element(&Val(&ty["a"], v)))?;
                q.end()
            }
            "tup" => {
                let mut q = s.serialize_tuple(list(v).len())?;
                items().try_for_each(|(v, t)| q.serialize_element(&Val(t, v)))?;
                q.end()
            }
            "tstruct" => {
                let mut q = s.serialize_tuple_struct("Tuple", list(v).len())?;
                items().try_for_each(|(v, t)| q.serialize_field(&Val(t, v)))?;
                q.end()
            }
            "map" => {
                let n = list(v).len();
                let mut q = s.serialize_map(if n % 2 == 0 { Some(n) } else { None })?;
                for (i, p) in list(v).iter().enumerate() {
                    let (k, v) = (Val(&ty["a"], &p[0]), Val(&ty["b"], &p[1]));
                    if i % 2 == 0 {
                        q.serialize_entry(&k, &v)?;
                    } else {
                        q.serialize_key(&k)?;
                        q.serialize_value(&v)?;
                    }
                }
                q.end()
            }
            "struct" => {
                let mut q = s.serialize_struct("Struct", list(v).len())?;
                for (v, f) in list(v).iter().zip(list(&ty["f"])) {
                    q.serialize_field(name(&decode(&f["n"])), &Val(&f["ty"], v))?;
                }
                q.end()
            }
            "enum" => {
                let i = x["i"].as_u64().unwrap() as usize - 1;
                let w = &ty["v"][i];
                let n = name(&decode(&w["n"]));
                let i = i as u32;
                match w["k"].as_str() {
                    Some("unit") => s.serialize_unit_variant("Enum", i, n),
                    Some("new") => s.serialize_newtype_variant("Enum", i, n, &Val(&w["ty"], v)),
                    Some("tup") => {
                        let mut q = s.serialize_tuple_variant("Enum", i, n, list(v).len())?;
                        list(v).iter().zip(list(&w["ty"]["v"])).try_for_each(|(v, t)| q.serialize_field(&Val(t, v)))?;
                        q.end()
                    }
                    _ => {
                        let mut q = s.serialize_struct_variant("Enum", i, n, list(v).len())?;
                        for (v, f) in list(v).iter().zip(list(&w["ty"]["f"])) {
                            q.serialize_field(name(&decode(&f["n"])), &Val(&f["ty"], v))?;
                        }
                        q.end()
                    }
                }
            }
            k => panic!("harness: kind {k}"),
        }
    }
}

// ------------------------------------------------------------ deserializing

/// The type of the value.
pub struct Seed<'a>(pub &'a Value);

fn native_de<'d, T: Native + Deserialize<'d>, D: Deserializer<'d>>(d: D) -> Result<Value, D::Error> {
    T::deserialize(d).map(|t| t.show())
}

impl<'d> DeserializeSeed<'d> for Seed<'_> {
    type Value = Value;

    fn deserialize<D: Deserializer<'d>>(self, d: D) -> Result<Value, D::Error> {
        let ty = self.0;
        if let Some(n) = native_name(ty) {
            return native!(n, native_de, d);
        }
        let v = By(ty);
        match kind(ty) {
            "bytes" => d.deserialize_bytes(v),
            "ustruct" => d.deserialize_unit_struct("Unit", v),
            "opt" => d.deserialize_option(v),
            "new" => d.deserialize_newtype_struct("New", v),
            "seq" => d.deserialize_seq(v),
            "tup" => d.deserialize_tuple(list(&ty["v"]).len(), v),
            "tstruct" => d.deserialize_tuple_struct("Tuple", list(&ty["v"]).len(), v),
            "map" => d.deserialize_map(v),
            "struct" => d.deserialize_struct("Struct", names(&ty["f"]), v),
            "enum" => d.deserialize_enum("Enum", names(&ty["v"]), v),
            k => panic!("harness: kind {k}"),
        }
    }
}

struct By<'a>(&'a Value);

fn take<'d, A: SeqAccess<'d>>(ts: &[Value], mut a: A) -> Result<Value, A::Error> {
    let mut v = vec![];
    for t in ts {
        match a.next_element_seed(Seed(t))? {
            Some(x) => v.push(x),
            None => return Err(de::Error::invalid_length(v.len(), &"more items")),
        }
    }
    Ok(Value::Array(v))
}

/// The fields, as the derived code reads them.
struct Fields<'a>(&'a Value);

impl<'d> Visitor<'d> for Fields<'_> {
    type Value = Value;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("fields")
    }

    fn visit_seq<A: SeqAccess<'d>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = vec![];
        for f in list(&self.0["f"]) {
            match a.next_element_seed(Seed(&f["ty"]))? {
                Some(x) => v.push(x),
                None if f["d"] == "default" => v.push(f["dv"].clone()),
                None => return Err(de::Error::invalid_length(v.len(), &"more fields")),
            }
        }
        Ok(Value::Array(v))
    }

    fn visit_map<A: MapAccess<'d>>(self, mut a: A) -> Result<Value, A::Error> {
        let fs = list(&self.0["f"]);
        let mut got = BTreeMap::new();
        while let Some(i) = a.next_key_seed(Field(fs, self.0["deny"] == true))? {
            match i {
                None => {
                    let _: IgnoredAny = a.next_value()?;
                }
                Some(i) => {
                    if got.insert(i, a.next_value_seed(Seed(&fs[i]["ty"]))?).is_some() {
                        return Err(de::Error::duplicate_field(name(&decode(&fs[i]["n"]))));
                    }
                }
            }
        }
        let mut v = vec![];
        for (i, f) in fs.iter().enumerate() {
            v.push(match (got.remove(&i), f["d"].as_str()) {
                (Some(x), _) => x,
                (_, Some("opt")) => tree("none", json!([])),
                (_, Some("default")) => f["dv"].clone(),
                _ => return Err(de::Error::missing_field(name(&decode(&f["n"])))),
            });
        }
        Ok(Value::Array(v))
    }
}

/// The number of the field or variant.
struct Field<'a>(&'a [Value], bool);

impl<'d> DeserializeSeed<'d> for Field<'_> {
    type Value = Option<usize>;

    fn deserialize<D: Deserializer<'d>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}

impl<'d> Visitor<'d> for Field<'_> {
    type Value = Option<usize>;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("identifier")
    }

    fn visit_str<E: de::Error>(self, s: &str) -> Result<Option<usize>, E> {
        match self.0.iter().position(|f| decode(&f["n"]) == s) {
            None if self.1 => Err(de::Error::unknown_field(s, &[])),
            i => Ok(i),
        }
    }
}

impl<'d> Visitor<'d> for By<'_> {
    type Value = Value;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(kind(self.0))
    }

    fn visit_unit<E: de::Error>(self) -> Result<Value, E> {
        match kind(self.0) {
            "ustruct" => Ok(tree("ustruct", json!([]))),
            "opt" => Ok(tree("none", json!([]))),
            _ => Err(de::Error::invalid_type(de::Unexpected::Unit, &self)),
        }
    }

    fn visit_none<E: de::Error>(self) -> Result<Value, E> {
        self.visit_unit()
    }

    fn visit_some<D: Deserializer<'d>>(self, d: D) -> Result<Value, D::Error> {
        Ok(tree("some", Seed(&self.0["a"]).deserialize(d)?))
    }

    fn visit_newtype_struct<D: Deserializer<'d>>(self, d: D) -> Result<Value, D::Error> {
        Ok(tree("new", Seed(&self.0["a"]).deserialize(d)?))
    }

    fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<Value, E> {
        Ok(tree("bytes", b.iter().map(u8::show).collect()))
    }

    fn visit_seq<A: SeqAccess<'d>>(self, mut a: A) -> Result<Value, A::Error> {
        let k = kind(self.0);
        let item = json!({"k": "u8"});
        let v = match k {
            "seq" | "bytes" => {
                let mut v = vec![];
                while let Some(x) = a.next_element_seed(Seed(if k == "seq" { &self.0["a"] } else { &item }))? {
                    v.push(x);
                }
                Value::Array(v)
            }
            "struct" => Fields(self.0).visit_seq(a)?,
            _ => take(list(&self.0["v"]), a)?,
        };
        Ok(tree(k, v))
    }

    fn visit_map<A: MapAccess<'d>>(self, mut a: A) -> Result<Value, A::Error> {
        if kind(self.0) == "struct" {
            return Ok(tree("struct", Fields(self.0).visit_map(a)?));
        }
        let mut v = vec![];
        loop {
            // Both ways of reading
            let p = if v.len() % 2 == 0 {
                a.next_entry_seed(Seed(&self.0["a"]), Seed(&self.0["b"]))?
            } else {
                match a.next_key_seed(Seed(&self.0["a"]))? {
                    Some(k) => Some((k, a.next_value_seed(Seed(&self.0["b"]))?)),
                    None => None,
                }
            };
            match p {
                Some((k, x)) => v.push(json!([k, x])),
                None => return Ok(tree("map", Value::Array(v))),
            }
        }
    }

    fn visit_enum<A: EnumAccess<'d>>(self, a: A) -> Result<Value, A::Error> {
        let vs = list(&self.0["v"]);
        let (i, a) = a.variant_seed(Field(vs, true))?;
        let i = i.unwrap();
        let w = &vs[i];
        let v = match w["k"].as_str() {
            Some("unit") => {
                a.unit_variant()?;
                json!([])
            }
            Some("new") => a.newtype_variant_seed(Seed(&w["ty"]))?,
            Some("tup") => a.tuple_variant(list(&w["ty"]["v"]).len(), Items(list(&w["ty"]["v"])))?,
            _ => a.struct_variant(names(&w["ty"]["f"]), Fields(&w["ty"]))?,
        };
        Ok(json!({"k": "var", "i": i + 1, "v": v}))
    }
}

struct Items<'a>(&'a [Value]);

impl<'d> Visitor<'d> for Items<'_> {
    type Value = Value;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("items")
    }

    fn visit_seq<A: SeqAccess<'d>>(self, a: A) -> Result<Value, A::Error> {
        take(self.0, a)
    }
}

// ---------------------------------------------------------------- comparing

/// The same value; the floats by their bits, all not-a-numbers are the same.
pub fn same(a: &Value, x: &Value) -> bool {
    match (a, x) {
        (Value::Object(m), Value::Object(n)) => {
            let bits = |s: String| s.parse::<f64>().ok().map(|f| if f.is_nan() { 1 } else { f.to_bits() });
            let bits32 = |s: String| s.parse::<f64>().ok().map(|f| if f.is_nan() { 1 } else { (f as f32).to_bits() });
            match a["k"].as_str() {
                Some("f64") => x["k"] == "f64" && bits(text(a)) == bits(text(x)),
                Some("f32") => x["k"] == "f32" && bits32(text(a)) == bits32(text(x)),
                _ => m.len() == n.len() && m.iter().all(|(k, v)| n.get(k).map_or(false, |w| same(v, w))),
            }
        }
        (Value::Array(v), Value::Array(w)) => v.len() == w.len() && v.iter().zip(w).all(|(a, b)| same(a, b)),
        _ => a == x,
    }
}

/// The node with its positions.
fn placed<R: Repr>(x: &Value) -> Node<R> {
    let yaml = match x["t"].as_str().expect("harness: node") {
        "seq" => Yaml::Seq(list(&x["v"]).iter().map(placed).collect()),
        "map" => Yaml::Map(list(&x["v"]).iter().map(|p| (placed(&p[0]), placed(&p[1]))).collect::<Map<R>>()),
        _ => build::<R>(x, &mut Anchors::new()).yaml().clone(),
    };
    Node::new(yaml, x["p"].as_u64().expect("harness: position"), decode(&x["tag"]))
}

const WRITTEN: Look = Look { tag: false, pos: false, num: true };

type Parsed = Result<Vec<Value>, SerdeError>;

fn from_text<T: Native + de::DeserializeOwned, S: AsRef<str>>(s: S) -> Parsed {
    Ok(from_str::<T>(s.as_ref())?.iter().map(T::show).collect())
}

/// The value and its node, the data are the same after all conversions.
pub fn ser(c: &Value) -> Result<(), String> {
    let (ty, v, x) = (&c["ty"], &c["v"], &c["x"]);
    let show = |e: String| format!("{e}\n  value {v} of {ty}");
    let err = |e: SerdeError| show(format!("error {e}"));
    let n = to_node(&Val(ty, v)).map_err(err)?;
    diff(&n, x, "", WRITTEN, "node").map_err(show)?;
    let m = to_arc_node(Val(ty, v)).map_err(err)?;
    diff(&m, x, "", WRITTEN, "(Arc) node").map_err(show)?;
    let text = to_string(&Val(ty, v)).map_err(err)?;
    if text != dump(&[n.clone()], &[]) {
        return Err(show(format!("to_string is {text:?}, not the dump of {n:?}")));
    }
    let back = |r: Result<Value, SerdeError>, how: &str| match r {
        Ok(w) if same(&w, v) => Ok(()),
        Ok(w) => Err(show(format!("{how} gives {w}"))),
        Err(e) => Err(show(format!("{how} fails: {e}"))),
    };
    back(Seed(ty).deserialize(n), "the node")?;
    back(Seed(ty).deserialize(m), "the Arc node")?;
    let docs = parse::<RcRepr>(&text).map_err(|e| show(format!("the text {text:?} fails: {e}")))?;
    for n in docs {
        back(Seed(ty).deserialize(n), &format!("the text {text:?}"))?;
    }
    if let Some(n) = native_name(ty) {
        let v = native!(n, from_text, &text).map_err(err)?;
        if v.len() != 1 {
            return Err(show(format!("{} documents in {text:?}", v.len())));
        }
        back(Ok(v[0].clone()), &format!("the text {text:?}"))?;
    }
    Ok(())
}

/// Any node as the type.
pub fn de<R: Repr>(c: &Value) -> Result<(), String> {
    let (ty, x, r) = (&c["ty"], &c["n"], &c["r"]);
    let n: Node<R> = placed(x);
    let show = |e: String| format!("{e}\n  node {n:?} as {ty}");
    match (Seed(ty).deserialize(n.clone()), r["ok"] == true) {
        (Ok(v), true) if same(&v, &r["v"]) => (),
        (Ok(v), true) => return Err(show(format!("value {v}, expected {}", r["v"]))),
        (Ok(v), false) => return Err(show(format!("value {v}, expected an error at {}", r["p"]))),
        (Err(e), true) => return Err(show(format!("error {e}, expected {}", r["v"]))),
        (Err(e), false) => {
            if r["p"].as_i64() != Some(-1) && r["p"] != e.pos {
                return Err(show(format!("error {e}, expected at {}", r["p"])));
            }
            if e.msg.is_empty() || !e.to_string().contains(&e.pos.to_string()) {
                return Err(show(format!("error {e}")));
            }
        }
    }
    if ty["conv"].is_string() && r["ok"] == true {
        native!(ty["rust"].as_str().unwrap(), conv, &n, c).map_err(show)?;
    }
    Ok(())
}

/// The methods of the convenience types.
trait Conv: Native {
    fn conv(&self, _: &Value) -> Result<(), String> {
        Ok(())
    }
}

fn conv<T: Conv + de::DeserializeOwned + Serialize, R: Repr>(n: &Node<R>, c: &Value) -> Result<(), String> {
    let t = T::deserialize(n.clone()).map_err(|e| e.to_string())?;
    t.conv(&c["c"])?;
    // Written back
    let w = to_node(&t).map_err(|e| e.to_string())?;
    let again = T::deserialize(w.clone()).map_err(|e| e.to_string())?;
    if !same(&again.show(), &t.show()) || kinds(&w) != kinds(&build::<ArcRepr>(&c["x"], &mut Anchors::new())) {
        return Err(format!("written as {w:?}"));
    }
    Ok(())
}

/// The node without the texts of the numbers.
fn kinds<R: Repr>(n: &Node<R>) -> String {
    match n.yaml() {
        Yaml::Seq(v) => format!("[{}]", v.iter().map(kinds).collect::<Vec<_>>().join(",")),
        Yaml::Map(m) => format!("{{{}}}", m.iter().map(|(k, v)| kinds(k) + ":" + &kinds(v)).collect::<Vec<_>>().join(",")),
        Yaml::Float(f) => format!("f{}", f.parse::<f64>().unwrap() as f32),
        y => format!("{y:?}"),
    }
}

macro_rules! no_conv {
    ($($ty:ty)+) => { $(impl Conv for $ty {})+ };
}
no_conv! { () bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char String Point Config Strict Mode Any Tagged Beside Flat }
impl<T: Native> Conv for Option<T> {}
impl<T: Native> Conv for Vec<T> {}
impl<A: Native, B: Native> Conv for (A, B) {}
impl<T: Native + fmt::Debug, const N: usize> Conv for [T; N] {}

fn eq<T: PartialEq + fmt::Debug>(a: T, b: T, what: &str) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("{what}: {a:?}, expected {b:?}"))
    }
}

impl<T: Native> Conv for InlineList<T> {
    fn conv(&self, x: &Value) -> Result<(), String> {
        let items = list(&x["items"]);
        let all = |v: Vec<Value>| v.len() == items.len() && v.iter().zip(items).all(|(a, b)| same(a, b));
        if !all(self.iter().map(T::show).collect()) {
            return Err(format!("iter, expected {items:?}"));
        }
        eq(self.len(), items.len(), "len")?;
        eq(self.is_empty(), items.is_empty(), "is_empty")?;
        eq(self.is_single(), items.len() == 1, "is_single")?;
        if !all(Self::make(&self.show()).into_iter().map(|t| t.show()).collect()) {
            return Err(format!("into_iter, expected {items:?}"));
        }
        let d = Self::default();
        eq((d.len(), d.is_empty(), d.is_single(), d.iter().count()), (0, true, false, 0), "default")
    }
}

impl<T: Native> Conv for Optional<T> {
    fn conv(&self, x: &Value) -> Result<(), String> {
        // The inner type may have no default, the given one is itself
        let own = T::make(&x["default"]);
        let want = match x["state"].as_str() {
            Some("off") => vec![],
            Some("default") => vec![x["default"].clone()],
            _ => vec![x["value"].clone()],
        };
        let all = |v: &[Value]| v.len() == want.len() && v.iter().zip(&want).all(|(a, b)| same(a, b));
        let mut got = vec![];
        self.ok_instead(|t| got.push(t.show()), &own);
        if !all(&got) {
            return Err(format!("ok_instead gets {got:?}, expected {want:?}"));
        }
        let mut calls = (vec![], 0);
        let (a, b) = (std::cell::RefCell::new(&mut calls.0), std::cell::RefCell::new(&mut calls.1));
        let r = self.ok_or_instead(
            |t| {
                a.borrow_mut().push(t.show());
                "ok"
            },
            &own,
            || {
                **b.borrow_mut() += 1;
                "or"
            },
        );
        if !all(&calls.0) || calls.1 != u32::from(want.is_empty()) || r != if want.is_empty() { "or" } else { "ok" } {
            return Err(format!("ok_or_instead gets {calls:?} and {r}, expected {want:?}"));
        }
        match Self::default() {
            Optional::Bool(true) => defaults(),
            d => Err(format!("default {}", d.show())),
        }
    }
}

impl Conv for Stringify {
    fn conv(&self, x: &Value) -> Result<(), String> {
        let s = self.to_string();
        if x["float"] == true {
            // The shortest decimal notation
            eq(s, (decode(&x["text"]).parse::<f64>().unwrap() as f32).to_string(), "shown")?;
        } else {
            eq(s, decode(&x["text"]), "shown")?;
        }
        eq(Self::default().to_string(), String::new(), "default")
    }
}

/// The callbacks with the default of the type.
pub fn defaults() -> Result<(), String> {
    fn one<T: Native + Default>() -> Result<(), String> {
        for (o, want) in [(Optional::<T>::Bool(false), 0), (Optional::Bool(true), 1), (Optional::Some(T::default()), 1)] {
            let mut got = vec![];
            o.ok(|t| got.push(t.show()));
            let (a, b) = (std::cell::Cell::new(0), std::cell::Cell::new(0));
            let r = o.ok_or(
                |t| {
                    a.set(a.get() + 1);
                    t.show()
                },
                || {
                    b.set(b.get() + 1);
                    json!("or")
                },
            );
            eq((a.get(), b.get()), (want, 1 - want), "ok_or")?;
            let x = T::default().show();
            eq(got.clone(), vec![x.clone(); want], "ok")?;
            eq(r, if want == 0 { json!("or") } else { x }, "ok_or")?;
        }
        Ok(())
    }
    one::<String>()?;
    one::<i32>()?;
    one::<bool>()?;
    one::<Point>()?;
    one::<Vec<i64>>()?;
    one::<()>()?;
    one::<char>()?;
    one::<f64>()?;
    one::<u64>()?;
    one::<Option<i64>>()?;
    one::<Stringify>()?;
    one::<(i8, String)>()
}

/// Nodes as serde data.
pub fn through<R: Repr>(c: &Value) -> Result<(), String> {
    fn read<R: Repr, Q: Repr>(n: &Node<Q>, c: &Value) -> Result<(), String> {
        let x = &c["x"];
        match (Node::<R>::deserialize(n.clone()), c["ok"] == true) {
            (Ok(m), true) => {
                diff(&m, x, "", VALUE, "read")?;
                // The digits are kept as a text in the integers out of range only
                if tree_of(&m) != tree_of(&Node::<R>::deserialize(m.clone()).map_err(|e| e.to_string())?) {
                    return Err(format!("read as {m:?}"));
                }
                Ok(())
            }
            (Err(e), false) if c["p"] == e.pos => Ok(()),
            (r, _) => Err(format!("read as {r:?}, expected {}", if c["ok"] == true { x } else { &c["p"] })),
        }
    }
    fn tree_of<R: Repr>(n: &Node<R>) -> String {
        project(n, "").to_string()
    }
    let n: Node<R> = placed(&c["n"]);
    let show = |e: String| format!("{e}\n  node {n:?}");
    read::<RcRepr, R>(&n, c).map_err(show)?;
    read::<ArcRepr, R>(&n, c).map_err(show)?;
    match (to_node(&n), to_arc_node(&n), c["ok"] == true) {
        (Ok(a), Ok(b), true) => {
            diff(&a, &c["x"], "", VALUE, "written").map_err(show)?;
            diff(&b, &c["x"], "", VALUE, "(Arc) written").map_err(show)?;
            let text = to_string(&n).map_err(|e| show(e.to_string()))?;
            if text != dump(&[a], &[]) {
                return Err(show(format!("to_string is {text:?}")));
            }
        }
        (Err(_), Err(_), false) => (),
        (a, b, _) => return Err(show(format!("written as {a:?} and {b:?}"))),
    }
    if c["json"] == true {
        let j = serde_json::to_string(&n).map_err(|e| show(format!("to JSON: {e}")))?;
        let m: Node<R> = serde_json::from_str(&j).map_err(|e| show(format!("from JSON: {e}")))?;
        diff(&m, &c["x"], "", VALUE, "JSON").map_err(show)?;
        let v: Value = serde_json::from_str(&j).map_err(|e| show(format!("no JSON: {e}")))?;
        let m: Node<R> = serde_json::from_value(v.clone()).map_err(|e| show(format!("from the JSON data: {e}")))?;
        if serde_json::to_value(&m).ok().as_ref() != Some(&v) {
            return Err(show(format!("the JSON data {v} is {m:?}")));
        }
    }
    Ok(())
}
