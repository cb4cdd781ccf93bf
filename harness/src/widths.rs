//! Property L12: widths of the printed lines, at several page widths.
use crate::cases::*;
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use serde_json::{json, Value};

fn max_line(d: &Doc, w: u16) -> Option<u16> {
    let notes = build(d, false, false)?;
    let e = Env::new(d.clone(), notes);
    let ops = [Op::Open { sid: 0, path: vec![], tgt: "start", pos: 0 }, Op::DownAll(0)];
    let ev = run::<H>(&e, w, &None, &ops, Want::default());
    let mut m = 0;
    for v in &ev {
        if v["r"] == "err" || v["r"] == "panic" {
            return None;
        }
        m = m.max(total(v));
    }
    Some(m as u16)
}
/// Width of the whole line (the focus may have cut a text within a cluster, so put it together).
fn total(v: &Value) -> usize {
    let s: String = ["L", "R"].iter().filter_map(|f| v[*f].as_array()).flatten().map(|s| dec(s[0].as_str().unwrap())).collect();
    width_of(&s)
}

pub fn make(r: &mut Rng, id: &str) -> Option<Value> {
    let mut p = Profile::base();
    p.obey = r.chance(5, 6);
    p.templates = if p.obey { 5 } else { 8 };
    p.style = 0;
    p.eol = 0;
    p.cho = 6;
    p.max_nodes = 2 + r.below(16);
    p.nl = 4;
    p.long = r.chance(1, 20);
    let (mut d, mut narrow, mut wide) = (gen_doc(r, &p), 0, 0);
    for _ in 0..6 {
        narrow = max_line(&d, 0).unwrap_or(5);
        wide = max_line(&d, 65535).unwrap_or(30);
        if narrow + 1 < wide {
            break;
        }
        d = gen_doc(r, &p);
    }
    let mut ws: Vec<u16> = vec![];
    for b in [narrow, wide] {
        for k in 0..3u16 {
            ws.push((b + k).saturating_sub(1));
        }
    }
    let (lo, hi) = (narrow.min(wide) as i64, narrow.max(wide) as i64);
    for _ in 0..4 {
        ws.push(r.range(lo, hi + 1) as u16);
    }
    ws.sort();
    ws.dedup();
    let (n, dd) = d.tables();
    let opens: Vec<Value> = ws
        .iter()
        .map(|_| if r.chance(1, 2) { Op::Open { sid: 0, path: vec![], tgt: "start", pos: 0 } } else { open_op(r, &d, 0) }.to_json())
        .collect();
    Some(json!({"id": id, "mode": "L12", "W": 0, "root": "", "N": n, "D": dd, "Ws": ws, "opens": opens}))
}

/// One event per width: the widths of all lines, in order (around a focus; if the focus does not
/// exist, from the top).
pub fn exec(inp: &Value) -> Option<Value> {
    let d = Doc::from_tables(inp["N"].as_array().unwrap(), inp["D"].as_array().unwrap());
    let mut out_ev = vec![];
    for (i, w) in inp["Ws"].as_array().unwrap().iter().enumerate() {
        let w = w.as_u64().unwrap() as u16;
        let notes = build(&d, false, false)?;
        let e = Env::new(d.clone(), notes);
        let top = Op::Open { sid: 0, path: vec![], tgt: "start", pos: 0 };
        let asked = inp["opens"].as_array().and_then(|a| a.get(i)).map(Op::from_json).unwrap_or(top.clone());
        let mut ev = run::<H>(&e, w, &None, &[asked, Op::UpAll(0), Op::DownAll(0)], Want::default());
        if ev[0]["r"] == "err" {
            ev = run::<H>(&e, w, &None, &[top, Op::UpAll(0), Op::DownAll(0)], Want::default());
        }
        let mut v = json!({"W": w, "r": "ok", "msg": ""});
        let (mut above, mut below) = (vec![], vec![]);
        for x in &ev {
            match x["r"].as_str().unwrap() {
                "ok" => below.push(total(x)),
                "line" if x["e"] == "up" => above.push(total(x)),
                "line" => below.push(total(x)),
                "none" => (),
                "err" => v["r"] = json!("err"),
                _ => {
                    v["r"] = json!("panic");
                    v["msg"] = x["msg"].clone();
                }
            }
        }
        above.reverse();
        above.extend(below);
        v["ws"] = json!(above);
        out_ev.push(v);
    }
    let mut out = inp.clone();
    out["ev"] = Value::Array(out_ev);
    Some(out)
}
