//! Histories of the calls of the parser, see spec/Cursor.tla.
use crate::{text::*, tree::*};
use serde_json::{json, Value};
use std::mem::take;
use yaml_peg::{
    indicated_msg, indicated_msg_file,
    parser::{Loader, PError, PResult, Parser, TakeOpt},
    repr::Repr,
    Node, Yaml,
};

struct Log<'a> {
    whole: &'a str,
    entries: &'a [Value],
}

/// What a call returned.
enum Got<R: Repr> {
    Unit,
    Text(String),
    Number(usize),
    Flag(bool),
    Node(Node<R>),
    /// The data only
    Yaml(Yaml<R>),
}

fn num(o: &Value, k: &str) -> i64 {
    o[k].as_i64().unwrap_or_else(|| panic!("harness: {k} of {o}"))
}

fn flag(o: &Value, k: &str) -> bool {
    o[k].as_bool().unwrap_or_else(|| panic!("harness: {k} of {o}"))
}

fn range(o: &Value) -> TakeOpt {
    match (num(o, "lo") as usize, num(o, "hi")) {
        (1, 1) => TakeOpt::One,
        (lo, -1) => TakeOpt::More(lo),
        (lo, hi) => TakeOpt::Range(lo, hi as usize),
    }
}

/// The sub-parsers of the grammar.
fn low<R: Repr>(p: &mut Parser, o: &Value) -> PResult<Got<R>> {
    let c = decode(&o["c"]);
    let c = c.as_bytes();
    let l = || num(o, "l") as usize;
    let text = |r: PResult<String>| r.map(Got::Text);
    match o["o"].as_str().unwrap() {
        "sym" => p.sym(c[0]),
        "sym_set" => p.sym_set(c),
        "sym_seq" => p.sym_seq(c),
        "take" if flag(o, "neg") => p.take_while(Parser::not_in(c), range(o)),
        "take" => p.take_while(Parser::is_in(c), range(o)),
        "ws" => p.ws(range(o)),
        "inv" => p.inv(range(o)),
        "ind" => p.ind(l()),
        "ind_define" => p.ind_define(l()),
        "nl" => p.nl(),
        "gap" => return p.gap(flag(o, "b")).map(Got::Number),
        "comment" => p.comment(),
        "bound" => p.bound(),
        "complex" => p.complex_mapping(),
        "int" => return text(p.int()),
        "float" => return text(p.float()),
        "sci" => return text(p.sci_float()),
        "single" => return text(p.string_quoted(b'\'', b"''")),
        "double" => return text(p.string_quoted(b'"', b"\\\"")),
        "plain" => return text(p.string_plain(l(), flag(o, "b"))),
        "literal" => return text(p.string_literal(l())),
        "folded" => return text(p.string_folded(l())),
        "wrapped" if flag(o, "b") => return text(p.string_wrapped(l(), b' ', false)),
        "wrapped" => return text(p.string_wrapped(l(), b'\n', true)),
        "chomp" => return Ok(Got::Text(p.chomp()(decode(&o["c"])))),
        "escape" => return Ok(Got::Text(Parser::escape(&decode(&o["c"])))),
        "identifier" => p.identifier(),
        "tag" => return text(p.tag()),
        "anchor" => return text(p.anchor()),
        "anchor_use" => return text(p.anchor_use()),
        "directive" => p.directive(),
        "err" => p.err("text"),
        "fwd" => {
            p.forward();
            Ok(())
        }
        "bwd" => {
            p.backward();
            Ok(())
        }
        k => panic!("harness: call {k}"),
    }
    .map(|()| Got::Unit)
}

/// The sub-parsers of the loader.
fn high<R: Repr>(p: &mut Loader<R>, o: &Value) -> Option<PResult<Got<R>>> {
    let l = || num(o, "l") as usize;
    let (b, f) = (|| flag(o, "b"), || flag(o, "f"));
    let data = |r: PResult<R::Rc>| r.map(|y| Got::Yaml(Yaml::clone(&y)));
    Some(match o["o"].as_str().unwrap() {
        "doc_end" => Ok(Got::Flag(p.doc_end())),
        "doc" => p.doc().map(Got::Node),
        "scalar" => p.scalar(l(), b(), f()).map(Got::Node),
        "scalar_flow" => p.scalar_flow(l(), f()).map(Got::Node),
        "scalar_term" => data(p.scalar_term(l(), f())),
        "seq_flow" => data(p.seq_flow(l())),
        "map_flow" => data(p.map_flow(l())),
        "seq" => data(p.seq(l(), b())),
        "map" => data(p.map(l(), b(), f())),
        _ => return None,
    })
}

/// The positions of the node are relative to the base.
fn shift(x: &Value, base: u64) -> Value {
    let mut x = x.clone();
    if let Some(p) = x["p"].as_u64() {
        x["p"] = json!(p + base);
    }
    let v = match x["t"].as_str().expect("harness: node") {
        "seq" => x["v"].as_array().unwrap().iter().map(|y| shift(y, base)).collect(),
        "map" => x["v"].as_array().unwrap().iter().map(|p| json!([shift(&p[0], base), shift(&p[1], base)])).collect(),
        _ => x["v"].clone(),
    };
    x["v"] = v;
    x
}

impl Log<'_> {
    /// Byte offset of the position in the rest.
    fn at(&self, e: &Value, k: &str) -> usize {
        let base = num(e, "base") as u64;
        (offset(self.whole, base + num(e, k) as u64) - offset(self.whole, base)) as usize
    }

    fn start(&self, e: &Value) -> usize {
        offset(self.whole, num(e, "base") as u64) as usize
    }

    /// Compare the state and the result of a call, a mismatch may also leave
    /// the position where it was.
    fn compare<R: Repr>(&self, p: &mut Parser, was: (usize, usize), r: PResult<Got<R>>, e: &Value) -> Result<(), String> {
        let (o, k, x) = (e["o"]["o"].as_str().unwrap(), e["k"].as_str().unwrap(), &e["x"]);
        let (pos, eaten, start) = (self.at(e, "p"), self.at(e, "e"), self.start(e));
        let doc = &self.whole[start..];
        match (r, k) {
            (Ok(got), "ok") => {
                match got {
                    Got::Unit => (),
                    Got::Text(s) if s == decode(x) => (),
                    Got::Text(s) => return Err(format!("{s:?}, expected {:?}", decode(x))),
                    Got::Number(n) if x == n => (),
                    Got::Flag(b) if x == b => (),
                    Got::Number(n) => return Err(format!("{n}, expected {x}")),
                    Got::Flag(b) => return Err(format!("{b}, expected {x}")),
                    Got::Node(n) => diff(&n, &shift(x, num(e, "base") as u64), self.whole, ALL, "node")?,
                    Got::Yaml(y) => {
                        let x = json!({"t": x["t"], "v": x["v"], "p": 0, "tag": []});
                        let base = num(e, "base") as u64;
                        diff(&Node::new(y, start as u64, ""), &shift(&x, base), self.whole, ALL, "data")?
                    }
                }
                if p.pos != pos {
                    return Err(format!("position {}, expected {pos}", p.pos));
                }
            }
            (Err(PError::Mismatch), "mis") => {
                if p.pos != pos && p.pos != was.0 && p.pos != was.1 {
                    return Err(format!("position {} after the mismatch, expected {pos}", p.pos));
                }
            }
            (Err(PError::Terminate { name, msg }), "err") => {
                let want = message(doc, pos as u64);
                if x != name || msg != want {
                    return Err(format!("error {name} {msg:?}, expected {x} {want:?}"));
                }
            }
            (Ok(_), _) => return Err(format!("matched to {}, expected {k}", p.pos)),
            (Err(e), _) => return Err(format!("{e:?}, expected {k} {x}")),
        }
        let strict = matches!(
            o,
            "sym" | "sym_set" | "sym_seq" | "take" | "ws" | "inv" | "ind" | "fwd" | "bwd" | "back" | "seek" | "feed" | "enter" | "leave"
        );
        if strict && (p.pos, p.eaten) != (pos, eaten) {
            return Err(format!("positions {} and {}, expected {pos} and {eaten}", p.pos, p.eaten));
        }
        // The sub-parsers of the nodes eat the text by themselves
        if k == "ok" && p.eaten != eaten && p.eaten != pos {
            return Err(format!("eaten to {}, expected {eaten}", p.eaten));
        }
        (p.pos, p.eaten) = (pos, eaten);
        let text = if eaten < pos { &doc[eaten..pos] } else { "" };
        if p.text() != text || p.food() != doc[pos..].as_bytes() || p.food_str() != doc[pos..] {
            return Err(format!("text {:?}, food {:?}", p.text(), p.food_str()));
        }
        if p.indicator() != (start + pos) as u64 {
            return Err(format!("indicator {}, expected {}", p.indicator(), start + pos));
        }
        Ok(())
    }

    /// The entries from `i` up to the end of the context.
    fn inner<R: Repr>(&self, p: &mut Parser, mut i: usize) -> Result<usize, String> {
        while i < self.entries.len() {
            let e = &self.entries[i];
            if e["o"]["o"] == "leave" {
                break;
            }
            i = self.one::<R>(p, i).map_err(|s| if s.starts_with('@') { s } else { format!("@{i} {}: {s}", e["o"]) })?;
        }
        Ok(i)
    }

    /// A call of the parser, returns the next entry.
    fn one<R: Repr>(&self, p: &mut Parser, i: usize) -> Result<usize, String> {
        let e = &self.entries[i];
        let was = (p.pos, p.eaten);
        match e["o"]["o"].as_str().unwrap() {
            "enter" => {
                let j = p.context(|p| {
                    self.compare::<R>(p, was, Ok(Got::Unit), e)?;
                    self.inner::<R>(p, i + 1)
                })?;
                let e = self.entries.get(j).expect("harness: open context");
                self.compare::<R>(p, was, Ok(Got::Unit), e).map_err(|s| format!("@{j} leave: {s}"))?;
                return Ok(j + 1);
            }
            "back" => {
                p.back(was.0 - self.at(e, "p"));
                self.compare::<R>(p, was, Ok(Got::Unit), e)?;
            }
            "seek" => {
                let (pos, eaten) = (self.at(e, "p"), self.at(e, "e"));
                if pos == eaten {
                    *p = take(p).pos(pos);
                } else {
                    (p.pos, p.eaten) = (pos, eaten);
                }
                self.compare::<R>(p, was, Ok(Got::Unit), e)?;
            }
            "bwd" | "fwd" => {
                let r = low::<R>(p, &e["o"]);
                self.compare(p, was, r, e)?;
            }
            _ if was.0 == was.1 && (was.0 + i) % 2 == 0 => {
                let mut got = None;
                let r = p.count(|p| {
                    got = Some(low::<R>(p, &e["o"])?);
                    Ok(())
                });
                let r = match (r, got) {
                    (Ok(n), Some(g)) if was.0 + n == self.at(e, "p") => Ok(g),
                    (Ok(n), Some(_)) => return Err(format!("count {n} from {}, expected to {}", was.0, self.at(e, "p"))),
                    (Ok(_), None) => unreachable!(),
                    (Err(e), _) => Err(e),
                };
                self.compare(p, was, r, e)?;
            }
            _ => {
                let r = low::<R>(p, &e["o"]);
                self.compare(p, was, r, e)?;
            }
        }
        Ok(i + 1)
    }
}

pub fn cursor<R: Repr>(c: &Value) -> Result<(), String> {
    let whole = decode(&c["d"]);
    let log = Log { whole: &whole, entries: c["log"].as_array().expect("harness: log") };
    let mut l = Loader::<R>::new(whole.as_bytes());
    let mut i = 0;
    while i < log.entries.len() {
        let e = &log.entries[i];
        let show = |s: String| format!("{s}\n  call {i} {} of {}\n  text {whole:?}", e["o"], c["log"]);
        if e["o"]["o"] == "feed" {
            let at = log.start(e);
            l.consume();
            l.parser = take(&mut l.parser).with_doc(whole[at..].as_bytes());
            log.compare::<R>(&mut l.parser, (0, 0), Ok(Got::Unit), e).map_err(show)?;
            i += 1;
            continue;
        }
        let was = (l.pos, l.eaten);
        i = match high(&mut l, &e["o"]) {
            Some(r) => log.compare(&mut l.parser, was, r, e).map(|()| i + 1),
            None => log.one::<R>(&mut l.parser, i),
        }
        .map_err(show)?;
    }
    Ok(())
}

/// The lines of all positions, see spec/Indicate.tla.
pub fn indicate(c: &Value) -> Result<(), String> {
    let doc = decode(&c["d"]);
    let at = c["at"].as_array().expect("harness: lines");
    let check = |b: u64, x: &Value| {
        let line = (offset(&doc, num(x, "from") as u64) as usize, offset(&doc, num(x, "to") as u64) as usize);
        let col = (b as usize).min(doc.len()) - line.0;
        let want = format!("{}:{}\n{}\n{}^", x["row"], col + 1, &doc[line.0..line.1], " ".repeat(col));
        for (msg, want) in [
            (indicated_msg(doc.as_bytes(), b), want.clone()),
            (indicated_msg_file("a/b.yaml", doc.as_bytes(), b), format!("a/b.yaml:{want}")),
        ] {
            if msg != want {
                return Err(format!("{msg:?} at {b}, expected {want:?}\n  text {doc:?}"));
            }
        }
        Ok(())
    };
    for (i, (b, ch)) in doc.char_indices().enumerate() {
        for j in 0..ch.len_utf8() {
            check((b + j) as u64, &at[i])?;
        }
    }
    let n = doc.len() as u64;
    for b in [n, n + 1, n + 7, u64::MAX - 1, u64::MAX] {
        check(b, at.last().unwrap())?;
    }
    Ok(())
}
