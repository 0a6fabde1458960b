//! The kinds of the cases.
use crate::{cursor, nodes, text::*, tree::*, typed};
use serde_json::Value;
use std::collections::HashMap;
use yaml_peg::{
    dump, parse, parse_cyclic,
    parser::{Anchors, Loader, PError, PResult},
    repr::{ArcRepr, RcRepr, Repr},
    Node, Yaml,
};

pub fn check(case: &Value) -> Result<(), String> {
    match case["k"].as_str() {
        Some("load") => load(case),
        Some("dump") => both(case, dumped::<RcRepr>, dumped::<ArcRepr>),
        Some("equal") => both(case, nodes::equal::<RcRepr>, nodes::equal::<ArcRepr>),
        Some("handles") => both(case, nodes::handles::<RcRepr>, nodes::handles::<ArcRepr>),
        Some("make") => nodes::make(case),
        Some("threads") => nodes::threads(case),
        Some("ser") => typed::ser(case),
        Some("de") => both(case, typed::de::<RcRepr>, typed::de::<ArcRepr>),
        Some("through") => both(case, typed::through::<RcRepr>, typed::through::<ArcRepr>),
        Some("cursor") => both(case, cursor::cursor::<RcRepr>, cursor::cursor::<ArcRepr>),
        Some("indicate") => cursor::indicate(case),
        k => panic!("harness: unknown case {k:?}"),
    }
}

type Check = fn(&Value) -> Result<(), String>;

fn both(case: &Value, rc: Check, arc: Check) -> Result<(), String> {
    rc(case)?;
    arc(case).map_err(|e| format!("(Arc) {e}"))
}

/// Compare the results of the loader with `Load` of spec/Loader.tla.
fn compare<R: Repr>(
    doc: &str,
    r: PResult<Vec<Node<R>>>,
    anchors: Option<Vec<Anchors<R>>>,
    e: &Value,
) -> Result<(), String> {
    let ok = e["ok"].as_bool().expect("harness: result");
    let v = match r {
        Ok(v) if ok => v,
        Ok(v) => return Err(format!("parsed as {v:?}, expected the error {} at {}", e["err"], e["p"])),
        Err(err) => {
            let (name, p) = error(doc, &err);
            if ok {
                return Err(format!("error {name:?} at {p}, expected {}", e["docs"]));
            }
            let (xn, xp) = (e["err"].as_str().unwrap(), e["p"].as_i64().unwrap());
            if name != xn || p != xp {
                return Err(format!("error {name:?} at {p}, expected {xn:?} at {xp}: {err}"));
            }
            let shown = match &err {
                PError::Mismatch => "not matched".to_string(),
                PError::Terminate { name, msg } => format!("invalid {name}: \n\n{msg}"),
            };
            if err.to_string() != shown {
                return Err(format!("error is shown as {:?}, expected {shown:?}", err.to_string()));
            }
            return Ok(());
        }
    };
    let docs = e["docs"].as_array().unwrap();
    if v.len() != docs.len() {
        return Err(format!("{} documents {v:?}, expected {}", v.len(), e["docs"]));
    }
    for (i, (n, x)) in v.iter().zip(docs).enumerate() {
        diff(n, x, doc, ALL, &format!("doc{i}"))?;
    }
    let mut cells = HashMap::new();
    for (n, x) in v.iter().zip(docs) {
        shared(n, x, &mut cells)?;
    }
    let Some(anchors) = anchors else { return Ok(()) };
    let xa = e["anc"].as_array().unwrap();
    if anchors.len() != xa.len() {
        return Err(format!("anchors of {} documents, expected {}", anchors.len(), xa.len()));
    }
    for (i, (a, x)) in anchors.iter().zip(xa).enumerate() {
        let x = x.as_array().unwrap();
        for e in x {
            let name = decode(&e[0]);
            match a.get(&name) {
                Some(n) => {
                    diff(n, &e[1], doc, ALL, &format!("doc{i} anchor {name}"))?;
                    shared(n, &e[1], &mut cells)?;
                }
                None => return Err(format!("doc{i}: no anchor {name}")),
            }
        }
        if a.len() != x.len() {
            return Err(format!("doc{i}: anchors {:?}, expected {}", a.keys(), x.len()));
        }
    }
    Ok(())
}

/// The nodes of one cell share the data.
fn shared<R: Repr>(n: &Node<R>, x: &Value, cells: &mut HashMap<u64, *const Yaml<R>>) -> Result<(), String> {
    let c = x["c"].as_u64().unwrap_or_else(|| panic!("harness: cell {x}"));
    if *cells.entry(c).or_insert(n.yaml()) != n.yaml() as *const _ {
        return Err(format!("the data of {n:?} is not shared with its anchor"));
    }
    match n.yaml() {
        Yaml::Seq(v) => v.iter().zip(x["v"].as_array().unwrap()).try_for_each(|(n, x)| shared(n, x, cells)),
        Yaml::Map(m) => m
            .iter()
            .zip(x["v"].as_array().unwrap())
            .try_for_each(|((k, v), x)| shared(k, &x[0], cells).and_then(|_| shared(v, &x[1], cells))),
        _ => Ok(()),
    }
}

fn load(c: &Value) -> Result<(), String> {
    let doc = decode(&c["d"]);
    let cy = c["cy"].as_bool().unwrap();
    fn one<R: Repr>(doc: &str, bytes: &[u8], cy: bool, e: &Value) -> Result<(), String> {
        // The last mode counts, and it is off at first
        for set in [&[cy][..], &[!cy, cy], &[]] {
            let l = set.iter().fold(Loader::<R>::new(bytes), |l, m| l.cyclic_mode(*m));
            let mut l = if set.is_empty() && cy { continue } else { l };
            let r = l.parse();
            compare(doc, r, Some(l.get_anchors()), e)?;
        }
        Ok(())
    }
    if c["d"].as_array().map_or(0, |d| d.len()) > 150 {
        // Nothing is required more than the stack of the default threads
        let d = doc.clone();
        let r = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || drop(Loader::<RcRepr>::new(d.as_bytes()).cyclic_mode(cy).parse()))
            .unwrap()
            .join();
        if let Err(e) = r {
            std::panic::resume_unwind(e)
        }
    }
    let show = |e| format!("{e}\n  text {doc:?}, cyclic {cy}");
    one::<RcRepr>(&doc, doc.as_bytes(), cy, &c["r"]).map_err(show)?;
    one::<ArcRepr>(&doc, doc.as_bytes(), cy, &c["r"]).map_err(|e| show(format!("(Arc) {e}")))?;
    if doc.contains('\u{FFFD}') {
        one::<RcRepr>(&doc, &malformed(&doc), cy, &c["r"]).map_err(|e| show(format!("(malformed) {e}")))?;
    }
    // The functions
    let r = if cy {
        parse_cyclic::<RcRepr>(&doc).map(|(n, a)| (n, Some(a)))
    } else {
        parse::<RcRepr>(&doc).map(|n| (n, None))
    };
    match r {
        Ok((n, a)) => compare(&doc, Ok(n), a, &c["r"]),
        Err(e) => compare::<RcRepr>(&doc, Err(e), None, &c["r"]),
    }
    .map_err(|e| show(format!("(function) {e}")))
}

/// The written documents, see spec/Dumper.tla.
fn dumped<R: Repr>(c: &Value) -> Result<(), String> {
    let want = c["want"].as_str().unwrap();
    let docs = c["docs"].as_array().unwrap();
    let mut anchors = vec![];
    let nodes: Vec<Node<R>> = docs
        .iter()
        .map(|x| {
            let mut a = Anchors::new();
            let n = build(x, &mut a);
            // More names of the nodes
            for (k, n) in a.clone() {
                for x in c["also"].as_array().unwrap() {
                    a.insert(format!("{k}{}", decode(x)), n.clone());
                }
            }
            anchors.push(a);
            n
        })
        .collect();
    let text = dump(&nodes, &anchors);
    let show = |e: String| format!("{e}\n  dumped {text:?}");
    if want == "text" {
        let x = decode(&c["d"]);
        if text != x {
            return Err(show(format!("expected the text {x:?}")));
        }
        let (n, a) = parse_cyclic::<R>(&text).map_err(|e| show(format!("parsed again: {e}")))?;
        let again = dump(&n, &a);
        return if again == text { Ok(()) } else { Err(show(format!("dumped again {again:?}"))) };
    }
    if want == "value" {
        let v = parse::<R>(&text).map_err(|e| show(format!("parsed again: {e}")))?;
        if v.len() != docs.len() {
            return Err(show(format!("parsed again: {} documents, expected {}", v.len(), docs.len())));
        }
        for (i, (n, x)) in v.iter().zip(docs).enumerate() {
            diff(n, x, &text, VALUE, &format!("doc{i}")).map_err(show)?;
            if *n != nodes[i] {
                return Err(show(format!("doc{i}: not equal {:?} {n:?}", nodes[i])));
            }
        }
        return Ok(());
    }
    let (v, a) = parse_cyclic::<R>(&text).map_err(|e| show(format!("parsed again: {e}")))?;
    if v.len() != docs.len() || a.len() != docs.len() {
        return Err(show(format!("parsed again: {} documents, expected {}", v.len(), docs.len())));
    }
    for (i, (n, x)) in v.iter().zip(docs).enumerate() {
        diff(n, x, &text, TAGGED, &format!("doc{i}")).map_err(show)?;
        let mut xa = vec![];
        anchored(x, &mut xa);
        if a[i].len() != xa.len() {
            return Err(show(format!("doc{i}: anchors {:?}, expected {}", a[i], xa.len())));
        }
        for (k, x) in xa {
            let n = a[i].get(&k).ok_or_else(|| show(format!("doc{i}: no anchor {k}")))?;
            diff(n, x, &text, TAGGED, &format!("doc{i} anchor {k}")).map_err(show)?;
        }
    }
    Ok(())
}
