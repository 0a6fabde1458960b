//! Nodes and handles, see spec/Equal.tla, Handles.tla, Make.tla and Threads.tla.
use crate::{text::*, tree::*};
use serde_json::Value;
use std::{
    collections::{hash_map::DefaultHasher, HashMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Barrier},
};
use yaml_peg::{
    node,
    parser::Anchors,
    repr::{ArcRepr, RcRepr, Repr},
    Ind, Map, Node, NodeArc, Seq, Yaml,
};

/// Another hash function.
struct Fnv(u64);

impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }

    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3);
        }
    }
}

fn hashes<T: Hash>(v: &T) -> (u64, u64) {
    let (mut a, mut b) = (DefaultHasher::new(), Fnv(0xcbf2_9ce4_8422_2325));
    v.hash(&mut a);
    v.hash(&mut b);
    (a.finish(), b.finish())
}

pub fn equal<R: Repr>(c: &Value) -> Result<(), String> {
    let docs = c["docs"].as_array().unwrap();
    let m = |i: usize, j: usize| c["m"][i][j].as_bool().unwrap();
    let nodes: Vec<Node<R>> = docs
        .iter()
        .enumerate()
        .map(|(i, x)| {
            let n: Node<R> = build(x, &mut Anchors::new());
            // The position and the holder are not compared
            Node::new_repr(n.clone_yaml(), i as u64 * 3, decode(&x["tag"]))
        })
        .collect();
    for (i, a) in nodes.iter().enumerate() {
        for (j, b) in nodes.iter().enumerate() {
            if (a == b) != m(i, j) || (a != b) == m(i, j) || (a.yaml() == b.yaml()) != m(i, j) {
                return Err(format!("{a:?} == {b:?} is {}, expected {}", a == b, m(i, j)));
            }
            if m(i, j) && (hashes(a) != hashes(b) || hashes(a.yaml()) != hashes(b.yaml())) {
                return Err(format!("the hashes of {a:?} and {b:?} are not the same"));
            }
        }
    }
    // Every key finds its equals only
    let mut map = Map::<R>::new();
    let mut std = HashMap::new();
    let mut set = HashSet::new();
    for (i, n) in nodes.iter().enumerate() {
        map.insert(n.clone(), Node::from(i));
        std.insert(n.clone(), i);
        set.insert(n.clone());
    }
    let holder: Node<R> = Node::from(map.clone());
    let classes = (0..nodes.len()).filter(|i| (0..*i).all(|j| !m(*i, j))).count();
    if map.len() != classes || set.len() != classes {
        return Err(format!("{} keys of {nodes:?}, expected {classes}", map.len()));
    }
    for k in 0..nodes.len() {
        let last = (0..nodes.len()).rev().find(|i| m(*i, k)).unwrap();
        let want = Node::<R>::from(last);
        let got = holder.get(nodes[k].clone());
        if got.ok().map(|n| n.as_int()) != Some(want.as_int()) || std.get(&nodes[k]) != Some(&last) {
            return Err(format!("the key {:?} finds {got:?}, expected {want:?}", nodes[k]));
        }
        let others: Map<R> = (0..nodes.len()).filter(|i| !m(*i, k)).map(|i| (nodes[i].clone(), Node::from(i))).collect();
        if others.get(&nodes[k]).is_some() {
            return Err(format!("the key {:?} finds another of {others:?}", nodes[k]));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ handles

const RAW: Look = Look { tag: true, pos: true, num: true };

/// The positions are not in a text.
fn same<R: Repr>(n: &Node<R>, x: &Value, at: &str) -> Result<(), String> {
    fn pos<R: Repr>(n: &Node<R>, x: &Value, at: &str) -> Result<(), String> {
        if Some(n.pos()) != x["p"].as_u64() {
            return Err(format!("{at}: position {}, expected {}", n.pos(), x["p"]));
        }
        match n.yaml() {
            Yaml::Seq(v) => v.iter().zip(x["v"].as_array().unwrap()).try_for_each(|(n, x)| pos(n, x, at)),
            Yaml::Map(m) => m
                .iter()
                .zip(x["v"].as_array().unwrap())
                .try_for_each(|((k, v), x)| pos(k, &x[0], at).and_then(|_| pos(v, &x[1], at))),
            _ => Ok(()),
        }
    }
    diff(n, x, "", Look { pos: false, ..RAW }, at)?;
    pos(n, x, at)
}

fn native<R: Repr>(t: &str, v: &str) -> Yaml<R> {
    match t {
        "null" => Yaml::Null,
        "bool" => Yaml::Bool(v == "true"),
        "int" => Yaml::Int(v.into()),
        "float" => Yaml::Float(v.into()),
        "str" => Yaml::Str(v.into()),
        "alias" => Yaml::Alias(v.into()),
        _ => panic!("harness: kind {t}"),
    }
}

type Res<T> = Result<T, u64>;

fn result<T, F: FnOnce(&T, &Value) -> Result<(), String>>(got: Res<T>, x: &Value, name: &str, f: F) -> Result<(), String> {
    match got {
        Ok(v) if x["ok"] == true => f(&v, &x["v"]).map_err(|e| format!("{name}: {e}")),
        Ok(_) => Err(format!("{name} is a value, expected the error {}", x["p"])),
        Err(p) if x["ok"] == false && x["p"] == p => Ok(()),
        Err(p) => Err(format!("{name} is the error {p}, expected {x}")),
    }
}

fn eq<T: PartialEq + std::fmt::Debug>(a: T, b: T) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("{a:?}, expected {b:?}"))
    }
}

fn accessors<R: Repr>(n: &Node<R>, x: &Value, keys: &[Value], anchors: &Anchors<R>) -> Result<(), String> {
    let float = |v: &Value| decode(v).parse::<f64>().expect("harness: float");
    let bits = |f: f64| if f.is_nan() { 1 } else { f.to_bits() };
    if x["null"] != n.is_null() {
        return Err(format!("is_null is {}", n.is_null()));
    }
    eq(n.tag(), decode(&x["tag"]).as_str()).map_err(|e| format!("tag: {e}"))?;
    result(n.as_bool(), &x["bool"], "as_bool", |b, v| eq(b.to_string(), decode(v)))?;
    result(n.as_int(), &x["int"], "as_int", |i, v| eq(i.to_string(), decode(v)))?;
    result(n.as_float(), &x["float"], "as_float", |f, v| eq(bits(*f), bits(float(v))))?;
    result(n.as_number(), &x["num"], "as_number", |f, v| eq(bits(*f), bits(float(v))))?;
    result(n.as_str(), &x["str"], "as_str", |s, v| eq(s.to_string(), decode(v)))?;
    result(n.as_value(), &x["value"], "as_value", |s, v| eq(s.to_string(), decode(v)))?;
    result(n.as_seq(), &x["seq"], "as_seq", |s, v| {
        let v = v.as_array().unwrap();
        eq(s.len(), v.len())?;
        s.iter().zip(v).try_for_each(|(n, x)| same(n, x, "item"))
    })?;
    result(n.as_map(), &x["map"], "as_map", |m, v| {
        let v = v.as_array().unwrap();
        eq(m.len(), v.len())?;
        m.iter().zip(v).try_for_each(|((k, n), x)| same(k, &x[0], "key").and_then(|_| same(n, &x[1], "value")))
    })?;
    for (i, (k, x)) in keys.iter().zip(x["get"].as_array().unwrap()).enumerate() {
        let key: Node<R> = build(k, &mut Anchors::new());
        result(n.get(key.clone()), x, "get", |n, x| same(n, x, "get"))?;
        if k["t"] == "str" {
            result(n.get(decode(&k["v"])), x, "get by String", |n, x| same(n, x, "get"))?;
            result(n.get(decode(&k["v"]).as_str()), x, "get by &str", |n, x| same(n, x, "get"))?;
        }
        match (catch_unwind(AssertUnwindSafe(|| &n[key.clone()])), x["ok"] == true) {
            (Ok(n), true) => same(n, &x["v"], "index")?,
            (Err(_), false) => (),
            (r, _) => return Err(format!("index by {key:?}: {:?}, expected {x}", r.ok())),
        }
        let _ = i;
    }
    for (i, (k, d)) in keys.iter().zip(x["def"].as_array().unwrap()).enumerate() {
        let key = || build::<R>(k, &mut Anchors::new());
        let here = n.pos();
        let child = x["get"][i]["v"]["p"].as_u64();
        let got = (n.get_default(key(), 7, |n| Ok(1000 + n.pos())), n.get_default(key(), 8, |n| Err(2000 + n.pos())));
        let want = match d.as_u64() {
            Some(0) => (Ok(7), Ok(8)),
            Some(1) => (Ok(1000 + child.unwrap()), Err(2000 + child.unwrap())),
            _ => (Err(here), Err(here)),
        };
        eq(got, want).map_err(|e| format!("get_default: {e}"))?;
    }
    for (i, x) in x["ind"].as_array().unwrap().iter().enumerate() {
        result(n.get_ind(Ind(i)), x, "get_ind", |n, x| same(n, x, "get_ind"))?;
        match (catch_unwind(AssertUnwindSafe(|| &n[Ind(i)])), x["ok"] == true) {
            (Ok(n), true) => same(n, &x["v"], "index")?,
            (Err(_), false) => (),
            (r, _) => return Err(format!("index by {i}: {:?}, expected {x}", r.ok())),
        }
    }
    result(n.as_anchor(anchors), &x["anchor"], "as_anchor", |n, x| same(n, x, "as_anchor"))
}

pub fn handles<R: Repr>(c: &Value) -> Result<(), String> {
    let mut hs: Vec<Node<R>> = vec![];
    let num = |o: &Value, k: &str| o[k].as_u64().unwrap_or_else(|| panic!("harness: {k} of {o}")) as usize;
    for o in c["hist"].as_array().unwrap() {
        let at = |k: &str| num(o, k) - 1;
        let tag = decode(&o["tag"]);
        let args = || o["v"].as_array().unwrap().iter().map(|i| i.as_u64().unwrap() as usize - 1).collect::<Vec<_>>();
        match o["o"].as_str().unwrap() {
            "new" => hs.push(Node::new(native::<R>(o["t"].as_str().unwrap(), &decode(&o["v"])), num(o, "p") as u64, tag)),
            "seq" => {
                let v: Seq<R> = args().into_iter().map(|i| hs[i].clone()).collect();
                hs.push(Node::new(v, num(o, "p") as u64, tag));
            }
            "map" => {
                let m: Map<R> = args().chunks(2).map(|a| (hs[a[0]].clone(), hs[a[1]].clone())).collect();
                hs.push(Node::new(m, num(o, "p") as u64, tag));
            }
            "clone" => hs.push(hs[at("a")].clone()),
            "item" => {
                let n = match hs[at("a")].yaml() {
                    Yaml::Seq(v) => v[num(o, "i")].clone(),
                    Yaml::Map(m) => m.values().nth(num(o, "i")).unwrap().clone(),
                    n => return Err(format!("{n:?} is not a collection")),
                };
                hs.push(n);
            }
            "set" => {
                let (t, v) = (o["t"].as_str().unwrap(), decode(&o["v"]));
                let h = &mut hs[at("a")];
                match t {
                    "null" => h.set_yaml(()),
                    "bool" => h.set_yaml(v == "true"),
                    "str" => h.set_yaml(v),
                    _ => h.set_yaml(native::<R>(t, &v)),
                }
            }
            "setseq" => {
                let b = hs[at("b")].clone();
                hs[at("a")].set_yaml(vec![b]);
            }
            "repr" => {
                let b = hs[at("b")].clone_yaml();
                hs[at("a")].set_repr(b);
            }
            "newrepr" => hs.push(Node::new_repr(hs[at("b")].rc_ref().clone(), num(o, "p") as u64, tag)),
            "drop" => drop(hs.remove(at("a"))),
            o => panic!("harness: operation {o}"),
        }
    }
    let keys = c["keys"].as_array().unwrap();
    let mut anchors = Anchors::<R>::new();
    for a in c["anchors"].as_array().unwrap() {
        let n: Node<R> = build(&a["node"], &mut Anchors::new());
        anchors.insert(decode(&a["name"]), Node::new_repr(n.clone_yaml(), a["node"]["p"].as_u64().unwrap(), decode(&a["node"]["tag"])));
    }
    let see = c["see"].as_array().unwrap();
    let show = |e: String| format!("{e}\n  after {}", c["hist"]);
    for (i, (n, x)) in hs.iter().zip(see).enumerate() {
        same(n, &x["x"], &format!("handle {}", i + 1)).map_err(show)?;
        accessors(n, &x["acc"], keys, &anchors).map_err(|e| show(format!("handle {}: {e}", i + 1)))?;
        for (j, m) in hs.iter().enumerate() {
            let shared = std::ptr::eq(n.yaml(), m.yaml());
            if shared != (c["share"][i][j] == true) {
                return Err(show(format!("handles {} and {} share the data: {shared}", i + 1, j + 1)));
            }
        }
    }
    if hs.len() != see.len() {
        return Err(show("harness: handles".into()));
    }
    Ok(())
}

// ------------------------------------------------------------- constructors

macro_rules! maker {
    ($name:ident, $repr:ty, $($kind:ident)?) => {
        /// Build by the constructor of the style.
        fn $name(x: &Value) -> Node<$repr> {
            let v = decode(&if x["v"].as_array().map_or(false, |a| a.iter().all(|c| c.is_string())) { x["v"].clone() } else { Value::Null });
            let way = x["st"].as_u64().unwrap();
            let kids = || x["v"].as_array().unwrap().iter().map($name).collect::<Vec<_>>();
            let pairs = || x["v"].as_array().unwrap().iter().map(|p| ($name(&p[0]), $name(&p[1]))).collect::<Vec<_>>();
            match (x["t"].as_str().unwrap(), way) {
                ("null", 1) => Node::from(()),
                ("null", 2) => node!($($kind)? ()),
                ("null", _) => Node::new(Yaml::Null, 0, ""),
                ("bool", 1) => Node::from(v == "true"),
                ("bool", 2) => node!($($kind)? v == "true"),
                ("bool", _) => Node::new(v == "true", 0, ""),
                ("int", w) => match (v.parse::<i128>(), w) {
                    (Ok(i), 1) if i.to_string() == v => match (i8::try_from(i), u8::try_from(i), i16::try_from(i), i64::try_from(i)) {
                        (Ok(i), ..) => Node::from(i),
                        (_, Ok(i), ..) => Node::from(i),
                        (_, _, Ok(i), _) => Node::from(i),
                        (.., Ok(i)) => Node::from(i),
                        _ => Node::from(i),
                    },
                    (Ok(i), 2) if i.to_string() == v => match (u16::try_from(i), i32::try_from(i), u32::try_from(i), u64::try_from(i)) {
                        (Ok(i), ..) => node!($($kind)? i),
                        (_, Ok(i), ..) => node!($($kind)? i),
                        (_, _, Ok(i), _) => node!($($kind)? i),
                        (.., Ok(i)) => node!($($kind)? i),
                        _ => node!($($kind)? i),
                    },
                    (Ok(i), 3) if i.to_string() == v => match (usize::try_from(i), isize::try_from(i), u128::try_from(i)) {
                        (Ok(i), ..) => Node::from(Yaml::from(i)),
                        (_, Ok(i), _) => Node::from(Yaml::from(i)),
                        (.., Ok(i)) => Node::from(Yaml::from(i)),
                        _ => Node::from(Yaml::from(i)),
                    },
                    _ => Node::new(Yaml::Int(v), 0, ""),
                },
                ("float", w) => match (v.parse::<f64>(), v.parse::<f32>(), w) {
                    (Ok(f), _, 1) if f.to_string() == v => Node::from(f),
                    (_, Ok(f), 2) if f.to_string() == v => node!($($kind)? f),
                    _ => Node::from(Yaml::Float(v)),
                },
                ("str", w) => match (v.chars().next(), w) {
                    (Some(c), 1) if c.len_utf8() == v.len() => Node::from(c),
                    (_, 1) => Node::from(v.as_str()),
                    (_, 2) => node!($($kind)? v.as_str()),
                    (_, 3) => Node::from(&v),
                    (_, 4) => node!($($kind)? v),
                    _ => Node::new(v, 0, ""),
                },
                ("alias", 1) => node!($($kind)? *v),
                ("alias", 2) => node!($($kind)? *v.as_str()),
                ("alias", _) => Node::from(Yaml::Alias(v)),
                ("seq", w) => match (kids().as_slice(), w) {
                    ([], 1) => node!($($kind)? []),
                    ([a], 1) => node!($($kind)? [a.clone()]),
                    ([a, b], 1) => node!($($kind)? [a.clone(), b.clone()]),
                    ([a, b, c], 1) => node!($($kind)? [a.clone(), b.clone(), c.clone(),]),
                    ([], 2) => node!($($kind)? [Node::from(()); 0]),
                    ([a, b @ ..], 2) if x["v"].as_array().unwrap().windows(2).all(|x| x[0] == x[1]) => node!($($kind)? [a.clone(); b.len() + 1]),
                    (v, 3) => v.iter().cloned().collect(),
                    (v, 4) => Node::from(v.to_vec()),
                    (v, _) => Node::new(Yaml::Seq(v.to_vec()), 0, ""),
                },
                ("map", w) => match (pairs().as_slice(), w) {
                    ([], 1) => node!($($kind)? {}),
                    ([(a, b)], 1) => node!($($kind)? {a.clone() => b.clone()}),
                    ([(a, b), (c, d)], 1) => node!($($kind)? {a.clone() => b.clone(), c.clone() => d.clone(),}),
                    ([(a, b), (c, d), (e, f)], 1) => node!($($kind)? {a.clone() => b.clone(), c.clone() => d.clone(), e.clone() => f.clone()}),
                    (v, 2) => v.iter().cloned().collect(),
                    (v, 3) => Node::from(v.iter().cloned().collect::<Map<_>>()),
                    (v, 4) => Node::from(v.iter().cloned().collect::<Yaml<_>>()),
                    (v, _) => Node::new(Yaml::Map(v.iter().cloned().collect()), 0, ""),
                },
                (t, _) => panic!("harness: kind {t}"),
            }
        }
    };
}

maker!(make_rc, RcRepr,);
maker!(make_arc, ArcRepr, arc);

pub fn make(c: &Value) -> Result<(), String> {
    fn one<R: Repr>(f: impl Fn(&Value) -> Node<R>, d: &Value, x: &Value) -> Result<(), String> {
        let n = f(d);
        diff(&n, x, "", Look { pos: false, tag: true, num: true }, "made")?;
        let plain: Node<R> = build(x, &mut Anchors::new());
        if n != plain || hashes(&n) != hashes(&plain) {
            return Err(format!("{n:?} is not equal to {plain:?}"));
        }
        if n.pos() != 0 {
            return Err(format!("the position of {n:?} is {}", n.pos()));
        }
        Ok(())
    }
    for (d, x) in c["docs"].as_array().unwrap().iter().zip(c["x"].as_array().unwrap()) {
        one(make_rc, d, x)?;
        one(make_arc, d, x).map_err(|e| format!("(Arc) {e}"))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ threads

pub fn threads(c: &Value) -> Result<(), String> {
    let shared = node!(arc {"shared" => node!(arc [1, "two", node!(arc 3.5), ()]), "k" => true});
    let prog = c["prog"].as_array().unwrap();
    let start = Arc::new(Barrier::new(prog.len()));
    let run: Vec<_> = prog
        .iter()
        .enumerate()
        .map(|(t, p)| {
            let (mut mine, p, start) = (vec![shared.clone()], p.clone(), start.clone());
            let all = shared.clone();
            let seen = c["seen"][t].clone();
            std::thread::spawn(move || -> Result<(), String> {
                start.wait();
                let mut step = 0;
                let mut seen = seen.as_array().unwrap().iter();
                for o in p.as_array().unwrap() {
                    let i = o[1].as_u64().unwrap() as usize - 1;
                    step += 1;
                    match o[0].as_str().unwrap() {
                        "clone" => mine.push(mine[i].clone()),
                        "drop" => drop(mine.remove(i)),
                        "set" => mine[i].set_yaml(t * 100 + step),
                        _ => {
                            let is = mine[i] == all && mine[i]["shared"][Ind(1)] == NodeArc::from("two") && hashes(&mine[i]) == hashes(&all);
                            let own = mine[i].as_int().map_or(false, |n| n / 100 == t as i64);
                            if is == own || *seen.next().unwrap() != is {
                                return Err(format!("thread {t} reads {:?} in {p}", mine[i]));
                            }
                        }
                    }
                }
                Ok(())
            })
        })
        .collect();
    for r in run {
        match r.join() {
            Ok(r) => r?,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
    if Arc::strong_count(shared.rc_ref()) != 1 {
        return Err(format!("{} holders remain", Arc::strong_count(shared.rc_ref())));
    }
    Ok(())
}
