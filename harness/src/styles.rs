//! The example style (property X07).
use crate::exec::panic_text;
use crate::rng::Rng;
use partial_pretty_printer as ppp;
use ppp::doc_examples::tree::{Tree, TreeCondition};
use ppp::doc_examples::{BasicStyle, Color};
use ppp::notation_constructors as c;
use ppp::{pretty_print, FocusTarget, Notation, Style};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

const COLORS: &[&str] = &["white", "black", "red", "green", "yellow", "blue", "magenta", "cyan"];
const LABELS: &[&str] = &[
    "white", "black", "red", "green", "yellow", "blue", "magenta", "cyan", "bold_white", "bold_black", "bold_red", "bold_green", "bold_yellow", "bold_blue",
    "bold_magenta", "bold_cyan", "", "bold_", "bold", "Red", "bold_Red", "red ", "red_bold", "bold_bold_red", "bold red", "purple", "boldred", "_red",
];

fn color(s: &str) -> Color {
    match s {
        "white" => Color::White,
        "black" => Color::Black,
        "red" => Color::Red,
        "green" => Color::Green,
        "yellow" => Color::Yellow,
        "blue" => Color::Blue,
        "magenta" => Color::Magenta,
        _ => Color::Cyan,
    }
}
fn style(v: &Value) -> BasicStyle {
    BasicStyle { color: color(v["c"].as_str().unwrap()), bold: v["b"] == true }
}
fn back(s: &BasicStyle) -> Value {
    json!({"c": format!("{:?}", s.color).to_lowercase(), "b": s.bold})
}
fn label(s: &str) -> &'static str {
    LABELS.iter().find(|l| **l == s).unwrap()
}

fn some(r: &mut Rng) -> Value {
    json!({"c": *r.pick(COLORS), "b": r.chance(1, 3)})
}

pub fn make(r: &mut Rng, id: &str) -> Option<Value> {
    let mut xs: Vec<Value> = LABELS.iter().map(|l| json!({"x":"label","s":l})).collect();
    for _ in 0..20 {
        let ops: Vec<&str> = (0..r.below(6)).map(|_| if r.chance(1, 3) { "bold" } else { *r.pick(COLORS) }).collect();
        xs.push(json!({"x":"build","ops":ops}));
        let n = 1 + r.below(7);
        let ss: Vec<Value> = (0..n).map(|_| some(r)).collect();
        xs.push(json!({"x":"combine","ss":ss}));
        let n = 1 + r.below(5);
        let nodes: Vec<Value> = (0..n)
            .map(|_| {
                let ls: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(LABELS)).collect();
                let mut ov: Vec<Value> = vec![];
                for _ in 0..r.below(4) {
                    let l = if !ls.is_empty() && r.chance(2, 3) { *r.pick(&ls) } else { *r.pick(LABELS) };
                    ov.push(json!([l, some(r)]));
                }
                json!({"ns": if r.chance(1, 2) { json!({"c":"white","b":false}) } else { some(r) }, "ls": ls, "ov": ov})
            })
            .collect();
        let root = if r.chance(1, 2) { json!([some(r)]) } else { json!([]) };
        xs.push(json!({"x":"doc","root":root,"nodes":nodes}));
    }
    Some(json!({"id": id, "mode": "X07", "xs": xs}))
}

type N = Notation<&'static str, TreeCondition>;
fn one(x: &Value) -> Vec<Value> {
    let arr = |v: &Value| v.as_array().unwrap().clone();
    match x["x"].as_str().unwrap() {
        "label" => vec![back(&BasicStyle::from(label(x["s"].as_str().unwrap())))],
        "build" => {
            let mut s = BasicStyle::new();
            for op in arr(&x["ops"]) {
                s = if op == "bold" { s.bold() } else { s.color(color(op.as_str().unwrap())) };
            }
            vec![back(&s)]
        }
        "combine" => {
            let ss: Vec<BasicStyle> = arr(&x["ss"]).iter().map(style).collect();
            let all = ss[1..].iter().fold(ss[0], |a, b| BasicStyle::combine(&a, b));
            vec![back(&all)]
        }
        _ => {
            let nodes = arr(&x["nodes"]);
            let mut doc: Option<Tree<BasicStyle>> = None;
            for node in nodes.iter().rev() {
                // the innermost node has text, literal text and text on an indented line
                let mut n: N = match doc {
                    Some(_) => c::child(0),
                    None => c::text() + c::lit("x") + (2 >> (c::lit("y") + c::flat(c::lit("z")))),
                };
                for l in arr(&node["ls"]).iter().rev() {
                    n = c::style(label(l.as_str().unwrap()), n);
                }
                let n = Box::leak(Box::new(n.validate().unwrap()));
                let mut t = match doc {
                    None => Tree::new_text(n, "text".to_owned()),
                    Some(d) => Tree::new_branch(n, vec![d]),
                }
                .with_style(style(&node["ns"]));
                for o in arr(&node["ov"]) {
                    t = t.with_style_override(label(o[0].as_str().unwrap()), style(&o[1]));
                }
                doc = Some(t);
            }
            let root = arr(&x["root"]);
            let root = root.first().map(style);
            let doc = doc.unwrap();
            let (_, first, rest) = pretty_print(&doc, 80, &[], FocusTarget::Start, root.as_ref()).unwrap();
            let mut got: Vec<Value> = first.right_segments.iter().map(|s| back(&s.style)).collect();
            for line in rest {
                got.extend(line.unwrap().segments.iter().map(|s| back(&s.style)));
            }
            got
        }
    }
}

pub fn exec(inp: &Value) -> Option<Value> {
    let ev: Vec<Value> = inp["xs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| {
            catch_unwind(AssertUnwindSafe(|| json!({"r":"ok","got":one(x)}))).unwrap_or_else(|p| json!({"r":"panic","msg":panic_text(p)}))
        })
        .collect();
    let mut out = inp.clone();
    out.as_object_mut().unwrap().insert("ev".into(), Value::Array(ev));
    Some(out)
}
