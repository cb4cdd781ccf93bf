//! Notations built with the constructor functions and operators, and serialized (property X04).
use crate::exec::panic_text;
use crate::model::{far_index, model_index, real_index, dec, enc, width_of};
use crate::rng::Rng;
use partial_pretty_printer as ppp;
use ppp::notation_constructors as c;
use ppp::{CheckPos, Notation};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type N = Notation<String, String>;

/// "<empty>" is the empty label; "" is none
fn lab(s: &str) -> String {
    if s == "<empty>" { String::new() } else { s.to_owned() }
}
fn unlab(s: &str) -> String {
    if s.is_empty() { "<empty>".into() } else { s.to_owned() }
}

pub fn build(e: &Value) -> N {
    let s = |f: &str| dec(e[f].as_str().unwrap());
    let x = |f: &str| build(&e[f]);
    match e["f"].as_str().unwrap() {
        "empty" => c::empty(),
        "nl" => c::nl(),
        "eol" => c::eol(),
        "mark" => c::mark(),
        "text" => c::text(),
        "left" => c::left(),
        "right" => c::right(),
        "lit" => c::lit(&s("s")),
        "child" => c::child(real_index(e["i"].as_i64().unwrap())),
        "flat" => c::flat(x("a")),
        "indent" => c::indent(&s("s"), if e["l"] == "" { None } else { Some(lab(&s("l"))) }, x("a")),
        "style" => c::style(lab(&s("l")), x("a")),
        "check" => {
            let i = real_index(e["i"].as_i64().unwrap());
            let p = match e["cp"].as_str().unwrap() {
                "here" => CheckPos::Here,
                "child" => CheckPos::Child(i),
                "left" => CheckPos::LeftChild,
                _ => CheckPos::RightChild,
            };
            c::check(s("q"), p, x("a"), x("b"))
        }
        "count" => c::count(c::Count { zero: x("a"), one: x("b"), many: x("c") }),
        "fold" => c::fold(c::Fold { first: x("a"), join: x("b") }),
        "+" => x("a") + x("b"),
        "|" => x("a") | x("b"),
        "^" => x("a") ^ x("b"),
        _ => (e["n"].as_u64().unwrap() as u16) >> x("a"),
    }
}

/// The notation as a term of the specification.
fn term(n: &N) -> Value {
    use Notation::*;
    match n {
        Empty => json!({"k":"empty"}),
        Newline => json!({"k":"nl"}),
        EndOfLine => json!({"k":"eol"}),
        FocusMark => json!({"k":"mark"}),
        Text => json!({"k":"text"}),
        Left => json!({"k":"left"}),
        Right => json!({"k":"right"}),
        Literal(s) => json!({"k":"lit","s":enc(s),"w":width_of(s)}),
        Child(i) => json!({"k":"child","i":model_index(*i)}),
        Flat(a) => json!({"k":"flat","a":term(a)}),
        Indent(s, l, a) => json!({"k":"indent","s":enc(s),"w":width_of(s),"l":l.as_ref().map_or(String::new(), |l| unlab(l)),"a":term(a)}),
        Style(l, a) => json!({"k":"style","l":unlab(l),"a":term(a)}),
        Concat(a, b) => json!({"k":"cat","a":term(a),"b":term(b)}),
        Choice(a, b) => json!({"k":"cho","a":term(a),"b":term(b)}),
        Check(q, p, a, b) => {
            let (cp, i) = match p {
                CheckPos::Here => ("here", 0),
                CheckPos::Child(i) => ("child", model_index(*i)),
                CheckPos::LeftChild => ("left", 0),
                CheckPos::RightChild => ("right", 0),
            };
            json!({"k":"check","q":q,"cp":cp,"i":i,"a":term(a),"b":term(b)})
        }
        Count { zero, one, many } => json!({"k":"count","a":term(zero),"b":term(one),"c":term(many)}),
        Fold { first, join } => json!({"k":"fold","a":term(first),"b":term(join)}),
    }
}

/// (plain: without characters that are escaped when shown for debugging)
pub fn expr(r: &mut Rng, size: usize, plain: bool) -> Value {
    let text = |r: &mut Rng| -> String {
        let n = r.below(5);
        let chars = ['a', 'b', ' ', '中', '|', '$', '\'', '{', '"', '\\', '\u{301}', '\u{1F600}', '\u{1}', '\t', '/'];
        (0..n).map(|_| *r.pick(&chars[..if plain { 8 } else { 15 }])).collect()
    };
    let label = |r: &mut Rng| (*r.pick(&["l", "m", "x y", "null", "<empty>"][..if plain { 4 } else { 5 }])).to_owned();
    let index = |r: &mut Rng| if !plain && r.chance(1, 6) { far_index(r) } else { r.range(-3, 3) };
    if size <= 1 {
        return match r.below(9) {
            0 => json!({"f":"empty"}),
            1 => json!({"f":"nl"}),
            2 => json!({"f":"eol"}),
            3 => json!({"f":"mark"}),
            4 => json!({"f":"text"}),
            5 => json!({"f":"left"}),
            6 => json!({"f":"right"}),
            7 => {
                let s = text(r);
                json!({"f":"lit","s":s,"w":width_of(&s)})
            }
            _ => json!({"f":"child","i":index(r)}),
        };
    }
    let x = 1 + r.below(size - 1);
    let y = (size - 1).saturating_sub(x).max(1);
    match r.weighted(&[4, 3, 4, 4, 1, 2, 1, 2, 2, 2]) {
        0 => json!({"f":"+","a":expr(r, x, plain),"b":expr(r, y, plain)}),
        1 => json!({"f":"|","a":expr(r, x, plain),"b":expr(r, y, plain)}),
        2 => json!({"f":"^","a":expr(r, x, plain),"b":expr(r, y, plain)}),
        3 => {
            let n = if r.chance(1, 12) { *r.pick(&[100, 255, 256, 257, 3000, 3001, 32768, 65535][..if plain { 4 } else { 8 }]) } else { r.below(12) };
            json!({"f":">>","n":n,"a":expr(r, size - 1, plain)})
        }
        4 => json!({"f":"flat","a":expr(r, size - 1, plain)}),
        5 => {
            let s = text(r);
            let l = if r.chance(1, 2) { String::new() } else { label(r) };
            json!({"f":"indent","s":s,"w":width_of(&s),"l":l,"a":expr(r, size - 1, plain)})
        }
        6 => json!({"f":"style","l":label(r),"a":expr(r, size - 1, plain)}),
        7 => {
            let cp = *r.pick(&["here", "child", "left", "right"]);
            let i = if cp == "child" { index(r) } else { 0 };
            json!({"f":"check","q":label(r).replace("<empty>", ""),"cp":cp,"i":i,"a":expr(r, x, plain),"b":expr(r, y, plain)})
        }
        8 => {
            let z = 1 + y / 2;
            json!({"f":"count","a":expr(r, x, plain),"b":expr(r, z, plain),"c":expr(r, z, plain)})
        }
        _ => json!({"f":"fold","a":expr(r, x, plain),"b":expr(r, y, plain)}),
    }
}

pub fn make(r: &mut Rng, id: &str) -> Option<Value> {
    let es: Vec<Value> = (0..20)
        .map(|_| {
            let size = 1 + r.below(16);
            expr(r, size, false)
        })
        .collect();
    Some(json!({"id": id, "mode": "X04", "terms": es}))
}

pub fn exec(inp: &Value) -> Option<Value> {
    let ev: Vec<Value> = inp["terms"]
        .as_array()
        .unwrap()
        .iter()
        .map(|e| {
            catch_unwind(AssertUnwindSafe(|| {
                let n = build(e);
                let t = term(&n);
                let text = serde_json::to_string(&n).map_err(|e| e.to_string());
                let back = text.and_then(|s| serde_json::from_str::<N>(&s).map_err(|e| e.to_string()));
                let tree = serde_json::to_value(&n).and_then(serde_json::from_value::<N>).map_err(|e| e.to_string());
                match (back, tree) {
                    (Ok(x), Ok(y)) => json!({"r":"ok","built":t,"back":term(&x),"tree":term(&y)}),
                    (Err(m), _) | (_, Err(m)) => json!({"r":"err","built":t,"msg":m}),
                }
            }))
            .unwrap_or_else(|p| json!({"r":"panic","msg":panic_text(p)}))
        })
        .collect();
    let mut out = inp.clone();
    out.as_object_mut().unwrap().insert("ev".into(), Value::Array(ev));
    Some(out)
}
