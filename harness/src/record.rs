//! The behaviour of the crate on inputs of its own, validated by TLC with
//! spec/Validate.tla (texts) and spec/Dumped.tla (trees).
use crate::{text::*, tree::*};
use serde_json::{json, Value};
use std::{
    io::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::mpsc,
    thread,
    time::Duration,
};
use yaml_peg::{
    dump,
    parser::Anchors,
    repr::{ArcRepr, RcRepr, Repr},
};

const CORPUS: &[&str] = &[
    include_str!("../corpus/anchor.yaml"),
    include_str!("../corpus/anchors.yaml"),
    include_str!("../corpus/block.yaml"),
    include_str!("../corpus/ci.yaml"),
    include_str!("../corpus/complete_doc.yaml"),
    include_str!("../corpus/complex.yaml"),
    include_str!("../corpus/compose.yaml"),
    include_str!("../corpus/crlf.yaml"),
    include_str!("../corpus/deep.yaml"),
    include_str!("../corpus/dump_result.yaml"),
    include_str!("../corpus/indent.yaml"),
    include_str!("../corpus/json.yaml"),
    include_str!("../corpus/k8s.yaml"),
    include_str!("../corpus/multi.yaml"),
    include_str!("../corpus/nested.yaml"),
    include_str!("../corpus/nofinalnewline_map.yaml"),
    include_str!("../corpus/nofinalnewline_scalar.yaml"),
    include_str!("../corpus/nofinalnewline_seq.yaml"),
    include_str!("../corpus/odd.yaml"),
    include_str!("../corpus/stream.yaml"),
    include_str!("../corpus/strings.yaml"),
    include_str!("../corpus/tags.yaml"),
    include_str!("../corpus/unicode.yaml"),
];

const SYNTAX: &[&str] = &[
    " ", "  ", "    ", "\n", "\n\n", "\r\n", "\r", "\t", ":", ": ", "- ", "-", "? ", "?", "#", " # x", "[", "]", "{", "}", ",", "&x ", "*x", "!",
    "!!str ", "!a ", "!<t> ", "|", ">", "|-", ">+", "|2", "'", "''", "\"", "\\", "\\n", "\\\"", "\\u0041", "---", "\n---\n", "...", "\n...\n",
    "%YAML 1.2", "~", "null", "true", "1", "0x1F", "-2.5e3", ".inf", "a", "b c", "%", "@", "`", "é", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}",
    "\u{1F600}", "\u{feff}", "\u{0}", "\u{7f}", "\u{b}", "\u{c}", "\u{fffd}",
];

struct Random(u64);

impl Random {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }

    fn one<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    fn char(&mut self) -> char {
        match self.below(12) {
            0..=7 => (b' ' + self.below(95) as u8) as char,
            8 => *self.one(&['\n', '\t', '\r', ' ', ' ']),
            9 => char::from_u32(self.below(0xff) as u32).unwrap(),
            10 => char::from_u32(0x1680 + self.below(0x1a00) as u32).unwrap_or('x'),
            _ => char::from_u32(self.below(0x11_0000) as u32).unwrap_or('y'),
        }
    }
}

/// Pieces of the corpus, put together and edited.
fn text(r: &mut Random, limit: usize) -> String {
    let mut s = String::new();
    if r.below(8) == 0 {
        // Any characters
        for _ in 0..r.below(limit / 4) {
            if r.below(3) == 0 {
                s.push(r.char());
            } else {
                s += r.one::<&str>(SYNTAX);
            }
        }
        return s;
    }
    let sep = if r.below(8) == 0 { *r.one(&["\r\n", "\r"]) } else { "\n" };
    let calm = r.below(2) == 0;
    for _ in 0..=r.below(if calm { 1 } else { 3 }) {
        let lines: Vec<_> = r.one::<&str>(CORPUS).split_inclusive('\n').collect();
        let from = if calm || r.below(2) == 0 { 0 } else { r.below(lines.len()) };
        let to = from + 1 + r.below(lines.len() - from);
        // Deeper or less deep
        let shift = if !calm && r.below(3) == 0 { r.below(7) as i32 - 2 } else { 0 };
        for l in &lines[from..to] {
            if shift > 0 {
                s.extend((0..shift).map(|_| ' '));
                s += l;
            } else {
                let n = l.bytes().take_while(|c| *c == b' ').count().min(-shift as usize);
                s += &l[n..];
            }
        }
    }
    if sep != "\n" {
        s = s.replace("\r\n", "\n").replace('\n', sep);
    }
    let mut c: Vec<char> = s.chars().collect();
    if c.len() > limit {
        let at = if calm { 0 } else { r.below(c.len() - limit) };
        c = c[at..at + limit].to_vec();
    }
    if r.below(4) != 0 {
        for _ in 0..=r.below(if calm { 2 } else { 5 }) {
            let i = r.below(c.len() + 1);
            match r.below(7) {
                0 | 1 => drop(c.splice(i..i, r.one::<&str>(SYNTAX).chars())),
                2 if i < c.len() => drop(c.remove(i)),
                3 if i < c.len() => c[i] = r.char(),
                4 => {
                    let j = (i + r.below(12)).min(c.len());
                    let part = c[i..j].to_vec();
                    let k = r.below(c.len() + 1);
                    drop(c.splice(k..k, part));
                }
                5 => {
                    let j = (i + r.below(8)).min(c.len());
                    drop(c.drain(i..j));
                }
                _ if r.below(4) == 0 => c.truncate(i),
                _ => c.insert(i, r.char()),
            }
        }
    }
    if r.below(6) == 0 {
        for _ in 0..=r.below(3) {
            c.insert(r.below(c.len() + 1), '\u{FFFD}');
        }
    }
    c.into_iter().collect()
}

/// Outcome of the parser, a panic is an outcome as well.
fn observe<R: Repr>(doc: &str, cy: bool) -> Value {
    let bytes = malformed(doc);
    catch_unwind(AssertUnwindSafe(|| outcome::<R>(doc, &bytes, cy))).unwrap_or_else(|_| json!({"ok": false, "err": "panic", "p": -1}))
}

fn texts(r: &mut Random, limit: usize) -> (String, impl FnOnce() -> Value + Send) {
    let doc = text(r, limit);
    let cy = r.below(2) == 0;
    let rc = r.below(2) == 0;
    let d = doc.clone();
    (doc, move || {
        let x = if rc { observe::<RcRepr>(&d, cy) } else { observe::<ArcRepr>(&d, cy) };
        json!({"d": encode(&d), "cy": cy, "r": x})
    })
}

fn string(r: &mut Random) -> String {
    match r.below(8) {
        0 => r.one::<&str>(SYNTAX).to_string(),
        1 => (0..r.below(5)).map(|_| *r.one::<&str>(SYNTAX)).collect(),
        2 => (0..r.below(20)).map(|_| r.char()).collect(),
        3 => {
            // Lines
            let mut s: Vec<_> = (0..1 + r.below(4)).map(|_| r.one::<&str>(&["", "a", " b", "c ", "  d", "é", "- x", "a: b", "\t"]).to_string()).collect();
            if r.below(2) == 0 {
                s.push(String::new());
            }
            s.join("\n")
        }
        4 => {
            let s = r.one::<&str>(CORPUS).lines().collect::<Vec<_>>();
            r.one(&s).to_string()
        }
        _ => (0..1 + r.below(8)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
    }
}

const NUMBERS: &[(&str, &str)] = &[
    ("int", "0"), ("int", "-1"), ("int", "42"), ("int", "0x1F"), ("int", "0o17"), ("int", "9223372036854775807"), ("int", "-9223372036854775808"),
    ("int", "123456789012345678901234567890"), ("float", "1.5"), ("float", "-0.25"), ("float", "1e10"), ("float", "1.5e-7"), ("float", "NaN"),
    ("float", "inf"), ("float", "-inf"), ("float", "2"), ("float", "1e400"), ("float", "0.1"),
];

struct Tree {
    names: Vec<String>,
    marks: bool,
    left: usize,
}

impl Tree {
    fn node(&mut self, r: &mut Random, level: usize) -> Value {
        self.left = self.left.saturating_sub(1);
        let mut n = match r.below(if level > 4 || self.left == 0 { 8 } else { 14 }) {
            0 => json!({"t": "null", "v": []}),
            1 => json!({"t": "bool", "v": encode(*r.one(&["true", "false"]))}),
            2 | 3 => {
                let (t, v) = *r.one(NUMBERS);
                json!({"t": t, "v": encode(v)})
            }
            4 if self.marks && !self.names.is_empty() => {
                let name = r.one(&self.names).clone();
                return json!({"t": "alias", "v": encode(&name), "tag": [], "a": []});
            }
            4..=7 => json!({"t": "str", "v": encode(&string(r))}),
            8..=10 => {
                let n = if r.below(6) == 0 { 0 } else { 1 + r.below(4) };
                let v: Vec<_> = (0..n).map(|_| self.node(r, level + 1)).collect();
                json!({"t": "seq", "v": v})
            }
            _ => {
                let n = if r.below(6) == 0 { 0 } else { 1 + r.below(4) };
                let mut v = Vec::new();
                for _ in 0..n {
                    let l = if r.below(3) == 0 { level + 1 } else { 9 };
                    let k = self.node(r, l);
                    v.push(json!([k, self.node(r, level + 1)]));
                }
                json!({"t": "map", "v": v})
            }
        };
        n["tag"] = encode(if self.marks && r.below(5) == 0 {
            *r.one(&["x", "a-1", "tag:yaml.org,2002:str", "tag:yaml.org,2002:int", "tag:yaml.org,2002:seq", "tag:x.org,2000:y", "a_b", "tag:yaml.org,2002:x.y"])
        } else {
            ""
        });
        n["a"] = json!([]);
        if self.marks && r.below(5) == 0 {
            let name = format!("{}{}", r.one(&["a", "B", "x-", "7"]), self.names.len());
            n["a"] = encode(&name);
            self.names.push(name);
        }
        n
    }
}

/// Random trees, dumped.
fn dumps(r: &mut Random, limit: usize, want: &'static str) -> (String, impl FnOnce() -> Value + Send) {
    let marks = want != "value" && r.below(4) != 0;
    let docs: Vec<_> = (0..if r.below(4) == 0 { 2 + r.below(2) } else { 1 })
        .map(|_| {
            let mut t = Tree { names: Vec::new(), marks, left: 1 + r.below(limit) };
            t.node(r, 0)
        })
        .collect();
    fn text<R: Repr>(docs: &[Value], marks: bool) -> String {
        let mut anchors = Vec::new();
        let nodes: Vec<_> = docs
            .iter()
            .map(|x| {
                let mut a = Anchors::<R>::new();
                let n = build::<R>(x, &mut a);
                // A repeated key is not a part of the document
                anchors.push(a);
                n
            })
            .collect();
        if marks { dump(&nodes, &anchors) } else { dump(&nodes, &[]) }
    }
    let rc = r.below(2) == 0;
    (json!(docs).to_string(), move || {
        let f = if rc { text::<RcRepr> } else { text::<ArcRepr> };
        let d = catch_unwind(AssertUnwindSafe(|| f(&docs, marks))).map_or_else(|_| json!(["panic"]), |d| encode(&d));
        json!({"docs": docs, "d": d, "want": want})
    })
}

/// A trace of the records, one line for each.
pub fn record(kind: &str, seed: u64, count: usize, limit: usize) {
    let mut r = Random(seed.wrapping_mul(0x1234_5678_9ABC_DEF1) ^ kind.len() as u64);
    let mut out = std::io::stdout().lock();
    let mut all = |f: &mut dyn FnMut(&mut Random) -> (String, Box<dyn FnOnce() -> Value + Send>)| {
        for _ in 0..count {
            let (input, run) = f(&mut r);
            let (tx, rx) = mpsc::channel();
            let h = thread::Builder::new().stack_size(2 << 20).spawn(move || tx.send(run()).unwrap()).unwrap();
            match rx.recv_timeout(Duration::from_secs(30)) {
                Ok(v) => writeln!(out, "{v}").unwrap(),
                Err(_) => {
                    writeln!(out, "{}", json!({"hang": input})).unwrap();
                    out.flush().unwrap();
                    std::process::exit(1);
                }
            }
            h.join().expect("harness: thread");
        }
    };
    match kind {
        "texts" => all(&mut |r| {
            let (s, f) = texts(r, limit);
            (s, Box::new(f))
        }),
        "value" | "tag" | "text" => {
            let want = ["value", "tag", "text"].into_iter().find(|s| *s == kind).unwrap();
            all(&mut |r| {
                let (s, f) = dumps(r, limit, want);
                (s, Box::new(f))
            })
        }
        _ => panic!("harness: record {kind}"),
    }
    out.flush().unwrap();
}
