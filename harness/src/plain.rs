//! The plain-text window, driven directly (property P08).
use crate::exec::panic_text;
use crate::model::St;
use crate::panes;
use crate::rng::Rng;
use partial_pretty_printer as ppp;
use ppp::pane::{PlainText, PrettyWindow};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn make(r: &mut Rng, id: &str) -> Option<Value> {
    if r.chance(1, 3) {
        return panes::make("P08", r, id);
    }
    let far = r.chance(1, 150); // the last columns there are
    let tall = !far && r.chance(1, 250); // many rows
    let n = if far { 2 } else if tall { 3 } else if r.chance(1, 20) { 60 } else { 1 + r.below(12) };
    let (maxr, maxc) = if far { (2, 2) } else { match r.below(8) {
        0 => (60, 8),
        1 => (3, 300),
        _ => (4, 12),
    } };
    let base = if far { 65533 } else { 0 };
    let low = if tall { *r.pick(&[254, 32766, 65534, 65536, 70000]) } else { 0 };
    let mut ops: Vec<Value> = vec![];
    let mut placed: Vec<(usize, usize, usize)> = vec![];
    for _ in 0..n {
        if r.chance(1, 6) {
            ops.push(json!(["f", low + r.below(maxr), base + r.below(maxc)]));
            continue;
        }
        let full = r.chance(1, 3);
        let w = if full { 2 } else { 1 };
        let (row, col, w) = if !placed.is_empty() && r.chance(1, 6) {
            let (row, col, w2) = *r.pick(&placed);
            (row, col - if full && col > 0 && r.chance(1, 3) { 1 } else { 0 }, w.max(w2))
        } else { (r.below(maxr) + if r.chance(2, 3) { low } else { 0 }, base + r.below(maxc), w) };
        // over others only if they are covered completely
        if placed.iter().any(|(r2, c2, w2)| *r2 == row && !(col <= *c2 && c2 + w2 <= col + w) && col < c2 + w2 && *c2 < col + w) {
            continue;
        }
        placed.push((row, col, w));
        let ch = if w == 2 { *r.pick(&['中', '文', 'か', '가', '😀']) } else { *r.pick(&['a', 'b', '~', '—', 'ﾊ', 'é', ' ', '\u{301}', '\t', '\0']) };
        ops.push(json!(["c", ch.to_string(), row, col, w == 2]));
    }
    let size = if r.chance(1, 4) { json!([r.below(65536), -1]) } else { json!([r.below(65536), r.below(1000)]) };
    Some(json!({"id": id, "mode": "P08", "ops": ops, "size": size}))
}

pub fn exec(inp: &Value) -> Option<Value> {
    if inp.get("P").is_some() {
        return panes::exec(inp);
    }
    let w = inp["size"][0].as_u64().unwrap() as u16;
    let mut ev = vec![];
    let mut win = match inp["size"][1].as_u64() {
        Some(h) => PlainText::<St>::new(w, h as u32),
        None => PlainText::<St>::new_unbounded_height(w),
    };
    for op in inp["ops"].as_array().unwrap() {
        let n = |i: usize| op[i].as_u64().unwrap();
        let res = catch_unwind(AssertUnwindSafe(|| {
            if op[0] == "c" {
                let ch = op[1].as_str().unwrap().chars().next().unwrap();
                let _ = win.display_char(ch, ppp::Pos { row: n(2) as u32, col: n(3) as u16 }, &St("s".into()), op[4] == true);
            } else {
                let _ = win.set_focus(ppp::Pos { row: n(1) as u32, col: n(2) as u16 });
            }
            let s = win.to_string();
            let mut lines: Vec<String> = s.split('\n').map(|x| x.to_owned()).collect();
            let tail = lines.pop();
            let size = win.size().unwrap();
            let few: Vec<Value> = lines.iter().enumerate().filter(|(_, x)| !x.is_empty()).map(|(i, x)| json!([i, x])).collect();
            let h = if size.height == u32::MAX { -1 } else { size.height as i64 };
            let mut v = json!({"e":"op","op":op,"r":"ok","tail":tail,"size":[size.width,h],
                "foc": win.focus_points().iter().map(|p| json!([p.row, p.col])).collect::<Vec<_>>()});
            if lines.len() > 200 {
                v["n"] = json!(lines.len());
                v["few"] = Value::Array(few);
            } else {
                v["lines"] = json!(lines);
            }
            v
        }));
        match res {
            Ok(v) => ev.push(v),
            Err(p) => {
                ev.push(json!({"e":"op","op":op,"r":"panic","msg":panic_text(p)}));
                break;
            }
        }
    }
    let mut out = inp.clone();
    out.as_object_mut().unwrap().insert("ev".into(), Value::Array(ev));
    Some(out)
}
