//! Nodes of the specification, see spec/Data.tla.
use crate::text::*;
use serde_json::{json, Value};
use yaml_peg::{parser::*, repr::Repr, Node, Yaml};

pub fn kind<R: Repr>(n: &Node<R>) -> &'static str {
    match n.yaml() {
        Yaml::Null => "null",
        Yaml::Bool(_) => "bool",
        Yaml::Int(_) => "int",
        Yaml::Float(_) => "float",
        Yaml::Str(_) => "str",
        Yaml::Seq(_) => "seq",
        Yaml::Map(_) => "map",
        Yaml::Alias(_) => "alias",
    }
}

pub fn default_tag(t: &str) -> String {
    match t {
        "alias" => String::new(),
        t => format!("tag:yaml.org,2002:{t}"),
    }
}

/// What is compared.
#[derive(Clone, Copy, Debug)]
pub struct Look {
    pub tag: bool,
    pub pos: bool,
    /// Numbers as texts, or by value
    pub num: bool,
}

pub const ALL: Look = Look { tag: true, pos: true, num: true };
pub const VALUE: Look = Look { tag: false, pos: false, num: false };
pub const TAGGED: Look = Look { tag: true, pos: false, num: false };

/// The numbers are the same, the oracle of the comparison.
pub fn same_int(a: &str, b: &str) -> bool {
    fn int(s: &str) -> Option<i64> {
        let (sign, u) = match s.strip_prefix('-') {
            Some(u) => ("-", u),
            None => ("", s.strip_prefix('+').unwrap_or(s)),
        };
        match (u.strip_prefix("0x"), u.strip_prefix("0o")) {
            (Some(u), _) => i64::from_str_radix(&format!("{sign}{u}"), 16).ok(),
            (_, Some(u)) => i64::from_str_radix(&format!("{sign}{u}"), 8).ok(),
            _ => s.parse().ok(),
        }
    }
    a == b || matches!((int(a), int(b)), (Some(a), Some(b)) if a == b)
}

pub fn same_float(a: &str, b: &str) -> bool {
    match (a.parse::<f64>(), b.parse::<f64>()) {
        (Ok(a), Ok(b)) => a == b || a.is_nan() && b.is_nan(),
        _ => a == b,
    }
}

/// Compare the node with the node of the specification.
pub fn diff<R: Repr>(n: &Node<R>, e: &Value, doc: &str, look: Look, at: &str) -> Result<(), String> {
    let t = e["t"].as_str().unwrap_or_else(|| panic!("harness: bad node {e}"));
    if kind(n) != t {
        return Err(format!("{at}: kind {} ({:?}), expected {t} {}", kind(n), n, e["v"]));
    }
    let scalar = |s: &str| {
        let x = decode(&e["v"]);
        if s == x {
            Ok(())
        } else {
            Err(format!("{at}: value {s:?}, expected {x:?}"))
        }
    };
    match n.yaml() {
        Yaml::Null => (),
        Yaml::Bool(b) => scalar(if *b { "true" } else { "false" })?,
        Yaml::Int(s) if !look.num && same_int(s, &decode(&e["v"])) => (),
        Yaml::Float(s) if !look.num && same_float(s, &decode(&e["v"])) => (),
        Yaml::Int(s) | Yaml::Float(s) | Yaml::Str(s) | Yaml::Alias(s) => scalar(s)?,
        Yaml::Seq(v) => {
            let x = e["v"].as_array().expect("harness: seq");
            for (i, (n, e)) in v.iter().zip(x).enumerate() {
                diff(n, e, doc, look, &format!("{at}[{i}]"))?;
            }
            if v.len() != x.len() {
                return Err(format!("{at}: {} items, expected {}", v.len(), x.len()));
            }
        }
        Yaml::Map(m) => {
            let x = e["v"].as_array().expect("harness: map");
            for (i, ((k, v), e)) in m.iter().zip(x).enumerate() {
                diff(k, &e[0], doc, look, &format!("{at}.key{i}"))?;
                diff(v, &e[1], doc, look, &format!("{at}.val{i}"))?;
            }
            if m.len() != x.len() {
                return Err(format!("{at}: {} pairs, expected {}", m.len(), x.len()));
            }
        }
    }
    if look.tag {
        let x = decode(&e["tag"]);
        let x = if x.is_empty() { default_tag(t) } else { x };
        if n.tag() != x {
            return Err(format!("{at}: tag {:?}, expected {x:?}", n.tag()));
        }
    }
    if look.pos {
        let x = offset(doc, e["p"].as_u64().unwrap_or_else(|| panic!("harness: pos {e}")));
        if n.pos() != x {
            return Err(format!("{at}: position {}, expected {x}", n.pos()));
        }
    }
    Ok(())
}

/// Node to the node of the specification.
pub fn project<R: Repr>(n: &Node<R>, doc: &str) -> Value {
    let v = match n.yaml() {
        Yaml::Null => json!([]),
        Yaml::Bool(b) => encode(if *b { "true" } else { "false" }),
        Yaml::Int(s) | Yaml::Float(s) | Yaml::Str(s) | Yaml::Alias(s) => encode(s),
        Yaml::Seq(v) => v.iter().map(|n| project(n, doc)).collect(),
        Yaml::Map(m) => m.iter().map(|(k, v)| json!([project(k, doc), project(v, doc)])).collect(),
    };
    let t = kind(n);
    let p = index(doc, n.pos()).map_or(json!(-1), |p| json!(p));
    json!({"t": t, "v": v, "tag": encode(n.tag()), "p": p})
}

/// Outcome of the parser in the form of `Load` of spec/Loader.tla.
pub fn outcome<R: Repr>(doc: &str, bytes: &[u8], cyclic: bool) -> Value {
    let mut l = Loader::<R>::new(bytes).cyclic_mode(cyclic);
    match l.parse() {
        Ok(v) => {
            let docs: Vec<_> = v.iter().map(|n| project(n, doc)).collect();
            let anc: Vec<_> = l
                .get_anchors()
                .iter()
                .map(|a| a.iter().map(|(k, n)| json!([encode(k), project(n, doc)])).collect::<Vec<_>>())
                .collect();
            json!({"ok": true, "docs": docs, "anc": anc})
        }
        Err(e) => {
            let (n, p) = error(doc, &e);
            json!({"ok": false, "err": n, "p": p})
        }
    }
}

/// Name and position (character) of the error.
pub fn error(doc: &str, e: &PError) -> (String, i64) {
    match e {
        PError::Mismatch => ("not matched".into(), 0),
        PError::Terminate { name, msg } => {
            let p = locate(doc, msg).and_then(|b| index(doc, b)).map_or(-1, |i| i as i64);
            (name.to_string(), p)
        }
    }
}

/// Byte offset of the indicated message, `None` if the message is wrong.
pub fn locate(doc: &str, msg: &str) -> Option<u64> {
    let (head, _) = msg.split_once('\n')?;
    let (row, col) = head.split_once(':')?;
    let (row, col): (usize, usize) = (row.parse().ok()?, col.parse().ok()?);
    let start: usize = doc.split('\n').take(row.checked_sub(1)?).map(|s| s.len() + 1).sum();
    let b = (start + col.checked_sub(1)?) as u64;
    (message(doc, b) == msg).then_some(b)
}

/// Build the node of the specification, the anchored nodes are shared with
/// the table.
pub fn build<R: Repr>(x: &Value, anchors: &mut Anchors<R>) -> Node<R> {
    let yaml = match x["t"].as_str().expect("harness: node") {
        "null" => Yaml::Null,
        "bool" => Yaml::Bool(decode(&x["v"]) == "true"),
        "int" => Yaml::Int(decode(&x["v"])),
        "float" => Yaml::Float(decode(&x["v"])),
        "str" => Yaml::Str(decode(&x["v"])),
        "alias" => Yaml::Alias(decode(&x["v"])),
        "seq" => Yaml::Seq(x["v"].as_array().unwrap().iter().map(|x| build(x, anchors)).collect()),
        "map" => Yaml::Map(
            x["v"].as_array().unwrap().iter().map(|x| (build(&x[0], anchors), build(&x[1], anchors))).collect(),
        ),
        t => panic!("harness: kind {t}"),
    };
    let n = Node::new(yaml, 0, decode(&x["tag"]));
    let a = decode(&x["a"]);
    if !a.is_empty() {
        anchors.insert(a, n.clone());
    }
    n
}

/// The anchors of the built node.
pub fn anchored<'a>(x: &'a Value, out: &mut Vec<(String, &'a Value)>) {
    let a = decode(&x["a"]);
    if !a.is_empty() {
        out.push((a, x));
    }
    match x["t"].as_str() {
        Some("seq") => x["v"].as_array().unwrap().iter().for_each(|x| anchored(x, out)),
        Some("map") => x["v"].as_array().unwrap().iter().for_each(|x| {
            anchored(&x[0], out);
            anchored(&x[1], out)
        }),
        _ => (),
    }
}
