//! Document tree nodes, made by several threads (property X03).
use crate::exec::panic_text;
use crate::rng::Rng;
use partial_pretty_printer as ppp;
use ppp::doc_examples::tree::{Contents, Tree, TreeCondition, TreeNotation};
use ppp::notation_constructors::{lit, text};
use ppp::{PrettyDoc, Style};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::sync::OnceLock;

#[derive(Debug, Clone)]
struct TS(String);
impl Style for TS {
    fn combine(o: &TS, i: &TS) -> TS {
        TS(format!("{}.{}", o.0, i.0))
    }
}
impl Default for TS {
    fn default() -> TS {
        TS("-".into())
    }
}
impl From<&'static str> for TS {
    fn from(l: &'static str) -> TS {
        TS(format!("@{l}"))
    }
}
type N = Tree<TS>;
const LABELS: [&str; 4] = ["l", "m", "", "open"];
fn label(s: &str) -> &'static str {
    LABELS.iter().find(|x| **x == s).unwrap()
}
fn notes() -> &'static [TreeNotation; 3] {
    static X: OnceLock<[TreeNotation; 3]> = OnceLock::new();
    X.get_or_init(|| [text().validate().unwrap(), lit("b").validate().unwrap(), lit("c").validate().unwrap()])
}
fn note_ix(n: &TreeNotation) -> usize {
    notes().iter().position(|x| std::ptr::eq(x, n)).map_or(0, |i| i + 1)
}

fn fields(t: &N) -> Value {
    let (txt, s, ch) = match &t.contents {
        Contents::Text(s) => (true, s.clone(), vec![]),
        Contents::Children(c) => (false, String::new(), c.iter().map(fields).collect()),
    };
    json!({"id": t.id, "note": note_ix(t.notation), "txt": txt, "s": s, "ch": ch, "com": t.is_comment, "sep": t.needs_separator,
        "ns": t.node_style.0, "ov": t.style_overrides.iter().map(|(l, s)| json!([l, s.0])).collect::<Vec<_>>()})
}
fn view(t: &N) -> Value {
    let n = t.num_children().unwrap();
    json!({"id": PrettyDoc::id(t).unwrap(), "note": note_ix(PrettyDoc::notation(t).unwrap()), "num": n.map_or(-1, |x| x as i64),
        "s": if n.is_none() { t.unwrap_text().unwrap() } else { "" }, "ns": PrettyDoc::node_style(t).unwrap().0,
        "conds": [t.condition(&TreeCondition::IsEmptyText).unwrap(), t.condition(&TreeCondition::NeedsSeparator).unwrap(), t.condition(&TreeCondition::IsComment).unwrap()],
        "look": LABELS.iter().map(|l: &'static &'static str| t.lookup_style(*l).unwrap().0).collect::<Vec<_>>(),
        "ch": (0..n.unwrap_or(0)).map(|i| view(t.unwrap_child(i).unwrap())).collect::<Vec<_>>()})
}

struct Job {
    op: Value,
    src: Vec<N>,
}
fn perform(j: Job) -> Result<Option<N>, String> {
    catch_unwind(AssertUnwindSafe(|| {
        let op = &j.op;
        let s = |i: usize| op[i].as_str().unwrap();
        let mut src = j.src;
        match s(0) {
            "text" => Some(N::new_text(&notes()[op[3].as_u64().unwrap() as usize - 1], s(4).to_owned())),
            "branch" => Some(N::new_branch(&notes()[op[3].as_u64().unwrap() as usize - 1], src)),
            "comment" => Some(src.pop().unwrap().into_comment()),
            "style" => Some(src.pop().unwrap().with_style(TS(s(4).to_owned()))),
            "over" => Some(src.pop().unwrap().with_style_override(label(s(4)), TS(s(5).to_owned()))),
            "skip" => {
                for _ in 0..op[2].as_u64().unwrap() {
                    drop(N::new_text(&notes()[0], String::new()));
                }
                None
            }
            _ => {
                N::reset_id();
                None
            }
        }
    }))
    .map_err(panic_text)
}

pub fn make(r: &mut Rng, id: &str) -> Option<Value> {
    let threads = 1 + r.below(3);
    let n = 3 + r.below(22);
    let mut ops = vec![];
    let mut sizes: Vec<(usize, usize)> = vec![]; // (handle, nodes)
    for h in 1..=n {
        let t = 1 + r.below(threads);
        let pick = |r: &mut Rng, sizes: &[(usize, usize)]| {
            let k = sizes.len();
            if r.chance(1, 2) { sizes[k - 1] } else { sizes[r.below(k)] }
        };
        let k = if sizes.is_empty() { 0 } else { if r.chance(1, 200) { 6 } else { r.weighted(&[6, 8, 4, 2, 3, 1]) } };
        match k {
            0 => {
                let s = *r.pick(&["", "a", "xyz", " ", "é"]);
                ops.push(json!(["text", t, h, 1 + r.below(3), s]));
                sizes.push((h, 1));
            }
            1 => {
                let m = r.below(6);
                let src: Vec<(usize, usize)> = (0..m).map(|_| pick(r, &sizes)).collect();
                let total = 1 + src.iter().map(|x| x.1).sum::<usize>();
                if total > 40 {
                    continue;
                }
                ops.push(json!(["branch", t, h, 1 + r.below(3), src.iter().map(|x| x.0).collect::<Vec<_>>()]));
                sizes.push((h, total));
            }
            5 => ops.push(json!(["reset", t])),
            6 => ops.push(json!(["skip", t, *r.pick(&[1, 200, 255, 256, 32768, 65535, 65536, 70000])])),
            _ => {
                let x = pick(r, &sizes);
                ops.push(match k {
                    2 => json!(["comment", t, h, x.0]),
                    3 => json!(["style", t, h, x.0, *r.pick(&["S", "T", "-"])]),
                    _ => json!(["over", t, h, x.0, *r.pick(&LABELS), *r.pick(&["O", "P", "Q"])]),
                });
                sizes.push((h, x.1));
            }
        }
    }
    Some(json!({"id": id, "mode": "X03", "threads": threads, "ops": ops}))
}

pub fn exec(inp: &Value) -> Option<Value> {
    let threads = inp["threads"].as_u64().unwrap() as usize;
    // each worker performs its operations when told to: the interleaving is the one in the case
    let mut workers = vec![];
    for _ in 0..threads {
        let (tx, rx) = mpsc::channel::<Job>();
        let (tx2, rx2) = mpsc::channel();
        std::thread::spawn(move || {
            for j in rx {
                let _ = tx2.send(perform(j));
            }
        });
        workers.push((tx, rx2));
    }
    let mut heap: HashMap<u64, N> = HashMap::new();
    let mut ev = vec![];
    for op in inp["ops"].as_array().unwrap() {
        let t = op[1].as_u64().unwrap() as usize;
        let get = |x: &Value| heap[&x.as_u64().unwrap()].clone();
        let src = match op[0].as_str().unwrap() {
            "branch" => op[4].as_array().unwrap().iter().map(get).collect(),
            "comment" | "style" | "over" => vec![get(&op[3])],
            _ => vec![],
        };
        workers[t - 1].0.send(Job { op: op.clone(), src }).unwrap();
        match workers[t - 1].1.recv().unwrap() {
            Ok(Some(x)) => {
                let seen = catch_unwind(AssertUnwindSafe(|| {
                    let n = (&x).num_children().unwrap().unwrap_or(0);
                    let last = if n == 0 { -1 } else { PrettyDoc::id((&x).unwrap_last_child().unwrap()).unwrap() as i64 };
                    let prev: Vec<u32> = (1..n)
                        .map(|i| PrettyDoc::id((&x).unwrap_child(i).unwrap().unwrap_prev_sibling(&x, i - 1).unwrap()).unwrap())
                        .collect();
                    json!({"r": "ok", "node": fields(&x), "view": view(&x), "last": last, "prev": prev})
                }));
                ev.push(seen.unwrap_or_else(|p| json!({"r": "panic", "msg": panic_text(p)})));
                heap.insert(op[2].as_u64().unwrap(), x);
            }
            Ok(None) => ev.push(json!({"r": "ok"})),
            Err(m) => {
                ev.push(json!({"r": "panic", "msg": m}));
                break;
            }
        }
        if ev.last().unwrap()["r"] != "ok" {
            break;
        }
    }
    let mut out = inp.clone();
    let m = out.as_object_mut().unwrap();
    m.insert("ev".into(), Value::Array(ev));
    m.insert("labels".into(), json!(LABELS));
    Some(out)
}
