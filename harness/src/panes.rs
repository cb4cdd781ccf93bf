//! Pane layouts displayed on a recording window (properties P01-P07, part of P08 and L13).
use crate::cases::*;
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use partial_pretty_printer as ppp;
use ppp::pane::{display_pane, PaneError, PaneNotation, PaneSize, PlainText, PrettyWindow, PrintingOptions, WidthStrategy};
use ppp::Size;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug)]
pub struct WFault(pub u64);
impl std::fmt::Display for WFault {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "window fault {}", self.0)
    }
}
impl std::error::Error for WFault {}

struct Rec<'a> {
    size: Size,
    /// window calls made so far
    n: Cell<u64>,
    fail_at: u64,
    failed: Cell<bool>,
    after: &'a Cell<u64>,
    dead: &'a dyn Fn() -> bool,
    calls: RefCell<Vec<Value>>,
}
impl Rec<'_> {
    fn call(&self) -> Result<(), WFault> {
        let n = self.n.get() + 1;
        self.n.set(n);
        if n > 3_000_000 {
            panic!("runaway: too many window calls");
        }
        if self.failed.get() || (self.dead)() {
            self.after.set(self.after.get() + 1);
        }
        if n == self.fail_at {
            self.failed.set(true);
            return Err(WFault(n));
        }
        Ok(())
    }
}
impl PrettyWindow for Rec<'_> {
    type Error = WFault;
    type Style = St;
    fn size(&self) -> Result<Size, WFault> {
        self.call()?;
        Ok(self.size)
    }
    fn display_char(&mut self, ch: char, pos: ppp::Pos, style: &St, full: bool) -> Result<(), WFault> {
        self.call()?;
        let w = if full { 2u64 } else { 1 };
        let mut calls = self.calls.borrow_mut();
        if let Some(c) = calls.last_mut() {
            if c[0] == "c"
                && c[1] == pos.row
                && c[2].as_u64().unwrap() + c[3].as_u64().unwrap() * w == pos.col as u64
                && c[4] == ch.to_string()
                && c[5] == full
                && c[6] == style.0
            {
                c[3] = json!(c[3].as_u64().unwrap() + 1);
                return Ok(());
            }
        }
        // the specification counts in 32-bit integers
        calls.push(json!(["c", pos.row.min(i32::MAX as u32), pos.col, 1, ch.to_string(), full, style.0]));
        Ok(())
    }
    fn set_focus(&mut self, pos: ppp::Pos) -> Result<(), WFault> {
        self.call()?;
        self.calls.borrow_mut().push(json!(["f", pos.row.min(i32::MAX as u32), pos.col]));
        Ok(())
    }
}

fn u(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

fn notation(p: &[Value], i: usize) -> PaneNotation<usize, St> {
    let x = &p[i - 1];
    let subs = || {
        x["s"]
            .as_array()
            .unwrap()
            .iter()
            .map(|s| {
                let n = u(&s["n"]);
                // hi copies of 2^58, or a power of two times n: the specification sees smaller numbers
                let big = |n: usize| match s.get("hi").and_then(|h| h.as_u64()) {
                    Some(h) => ((h as usize) << 58) + u(&s["lo"]),
                    None => match s.get("sh").and_then(|h| h.as_u64()) {
                        Some(h) => n << h,
                        None => n,
                    },
                };
                let z = match s["z"].as_str().unwrap() {
                    "fix" => PaneSize::Fixed(if s["max"] == true { usize::MAX } else { big(n) }),
                    "dyn" => PaneSize::Dynamic,
                    _ => PaneSize::Proportional(big(n)),
                };
                (z, notation(p, u(&s["p"])))
            })
            .collect::<Vec<_>>()
    };
    match x["k"].as_str().unwrap() {
        "horz" => PaneNotation::Horz(subs()),
        "vert" => PaneNotation::Vert(subs()),
        "doc" => PaneNotation::Doc { label: u(&x["d"]) },
        "fill" => PaneNotation::Fill { ch: x["ch"].as_str().unwrap().chars().next().unwrap() },
        _ => PaneNotation::Style { style: St(x["st"].as_str().unwrap().into()), notation: Box::new(notation(p, u(&x["p"]))) },
    }
}

fn options(d: &Value) -> PrintingOptions {
    let wn = u(&d["wn"]) as u16;
    PrintingOptions {
        focus_path: d["path"].as_array().unwrap().iter().map(|i| real_pos(u(i))).collect(),
        focus_target: target(d["tgt"].as_str().unwrap(), u(&d["pos"])),
        focus_height: u(&d["fh"]) as f32 / u(&d["fd"]) as f32,
        width_strategy: match d["ws"].as_str().unwrap() {
            "full" => WidthStrategy::Full,
            "fixed" => WidthStrategy::Fixed(wn),
            _ => WidthStrategy::NoMoreThan(wn),
        },
        set_focus: d["sf"] == true,
    }
}

fn show<'d, D: Mk<'d> + 'd, W: PrettyWindow<Style = St>>(
    win: &mut W,
    inp: &Value,
    root: &PaneNotation<usize, St>,
    envs: &'d [Env],
) -> Result<(), PaneError<W::Error, Fault>> {
    let docs = inp["docs"].as_array().unwrap();
    let style = St(inp["style"].as_str().unwrap().into());
    display_pane(win, root, &style, &|label: usize| {
        if label == 0 {
            None
        } else {
            Some((D::mk(&envs[label - 1], 0), options(&docs[label - 1])))
        }
    })
}

pub fn exec(inp: &Value) -> Option<Value> {
    let p = inp["P"].as_array().unwrap();
    let root = notation(p, u(&inp["p0"]));
    let docs = inp["docs"].as_array().unwrap();
    let mut envs = vec![];
    for d in docs {
        let doc = Doc::from_tables(d["N"].as_array().unwrap(), d["D"].as_array().unwrap());
        let notes = build(&doc, false, false)?;
        envs.push(Env::new(doc, notes));
    }
    let (w, h) = (u(&inp["w"]) as u16, u(&inp["h"]) as u32);
    let h = if inp["hmax"] == true { u32::MAX } else { h };
    let dflt = inp["dflt"] == true;
    let mut ev = vec![];
    for f in inp["faults"].as_array().unwrap() {
        for e in &envs {
            e.calls.set(0);
            e.failed.set(false);
            e.after_fail.set(0);
            e.limit.set(3_000_000);
            e.fail_at.set(u64::MAX);
        }
        let k = f[1].as_u64().unwrap();
        if f[0] == "doc" {
            envs[u(&f[2]) - 1].fail_at.set(k);
        }
        if f[0] == "plain" {
            let mut win = PlainText::<St>::new(w, h);
            let res = catch_unwind(AssertUnwindSafe(|| {
                if dflt { show::<H2, _>(&mut win, inp, &root, &envs).is_ok() } else { show::<H, _>(&mut win, inp, &root, &envs).is_ok() }
            }));
            match res {
                Ok(ok) => {
                    let s = win.to_string();
                    let mut lines: Vec<&str> = s.split('\n').collect();
                    let last = lines.pop();
                    ev.push(json!({"e":"plain","r": if ok {"ok"} else {"err"},"lines":lines,"tail":last,
                        "foc": win.focus_points().iter().map(|p| json!([p.row, p.col])).collect::<Vec<_>>()}));
                }
                Err(x) => ev.push(json!({"e":"plain","r":"panic","msg":panic_text(x)})),
            }
            continue;
        }
        let after = Cell::new(0);
        let dead = || envs.iter().any(|e| e.failed.get());
        let mut win = Rec {
            size: Size { width: w, height: h },
            n: Cell::new(0),
            fail_at: if f[0] == "win" { k } else { u64::MAX },
            failed: Cell::new(false),
            after: &after,
            dead: &dead,
            calls: RefCell::new(vec![]),
        };
        let res = catch_unwind(AssertUnwindSafe(|| {
            if dflt { show::<H2, _>(&mut win, inp, &root, &envs) } else { show::<H, _>(&mut win, inp, &root, &envs) }
        }));
        let fired = if win.failed.get() { "win" } else if dead() { "doc" } else { "" };
        let doc_after: u64 = envs.iter().map(|e| e.after_fail.get()).sum();
        let mut v = json!({"e":"show","calls":*win.calls.borrow(),"nw":win.n.get(),"at":k,"fired":fired,"after":after.get()+doc_after,
            "nd": envs.iter().map(|e| e.calls.get()).collect::<Vec<_>>(), "en": 0, "err": {"k":"","i":0,"n":0}, "msg": ""});
        let m = v.as_object_mut().unwrap();
        let r = match res {
            Ok(Ok(())) => "ok",
            Ok(Err(PaneError::InvalidUseOfDynamic)) => "misuse",
            Ok(Err(PaneError::PrettyWindowError(WFault(n)))) => {
                m.insert("en".into(), json!(n));
                "win"
            }
            Ok(Err(PaneError::PrintingError(x))) => {
                m.insert("err".into(), err_json(&x));
                "print"
            }
            Err(x) => {
                m.insert("msg".into(), json!(panic_text(x)));
                "panic"
            }
        };
        m.insert("r".into(), json!(r));
        ev.push(v);
    }
    let mut out = inp.clone();
    out.as_object_mut().unwrap().insert("ev".into(), Value::Array(ev));
    Some(out)
}

// ---------------------------------------------------------------------------------- generation
struct Cfg {
    split: usize,
    doc: usize,
    fill: usize,
    style: usize,
    none: usize,
    fix: usize,
    dynamic: usize,
    prop: usize,
    misuse: bool,
    wide_fill: bool,
    max_depth: usize,
    mixed: bool,
}

struct Tree {
    p: Vec<Value>,
    fills: usize,
    ndocs: usize,
    styles: usize,
}

const FILLS: &[char] = &[' ', '.', '#', '~', '-', '+', '=', 'o', '%', '@', 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'J', 'K'];
const WIDE_FILLS: &[char] = &['中', '文', 'か', '字', 'Ａ', '가', '⌚', '😀'];

fn push(t: &mut Tree, v: Value) -> usize {
    t.p.push(v);
    t.p.len()
}
fn doc_pane(r: &mut Rng, c: &Cfg, t: &mut Tree) -> usize {
    let d = if r.below(10) < c.none { 0 } else { 1 + r.below(t.ndocs) };
    let mut i = push(t, json!({"k":"doc","d":d}));
    while r.below(12) < c.style.min(6) {
        t.styles += 1;
        let st = format!("P{}", t.styles);
        i = push(t, json!({"k":"style","st":st,"p":i}));
    }
    i
}
fn weight(r: &mut Rng) -> Value {
    match r.below(10) {
        0 => json!({"z":"prop","n":0}),
        1 => json!({"z":"prop","n":r.below(1000)}),
        2 => json!({"z":"prop","n":100 + r.below(5)}),
        _ => json!({"z":"prop","n":1 + r.below(9)}),
    }
}
fn tree(r: &mut Rng, c: &Cfg, t: &mut Tree, depth: usize) -> usize {
    let split = if depth >= c.max_depth { 0 } else if depth == 0 { c.split * 4 } else { c.split };
    match r.weighted(&[split, c.doc, c.fill, c.style]) {
        0 => {
            // now and then very many subpanes, most of them with the same few weights
            let many = depth == 0 && r.chance(1, 10);
            let n = if many { 15 + r.below(45) } else if r.chance(1, 12) { 0 } else { 1 + r.below(5) };
            let weights = if many { 1 + r.below(2) } else { 0 };
            let mut s = vec![];
            // within one split, weights may share a huge factor
            let sh = if r.chance(1, 5) { Some(r.below(50)) } else { None };
            let hi = c.mixed && !many && r.chance(1, 12);
            for _ in 0..n {
                let mut v = match r.weighted(&[c.fix, c.dynamic, if many { 20 } else { c.prop }]) {
                    0 => match r.below(12) {
                        0 => json!({"z":"fix","n":100000,"max":true}),
                        1 => json!({"z":"fix","n":70000,"sh":r.below(45)}),
                        2 => json!({"z":"fix","n":0}),
                        _ => json!({"z":"fix","n":1 + r.below(7)}),
                    },
                    1 => json!({"z":"dyn","n":0}),
                    _ => {
                        let mut v = if many && !r.chance(1, 10) { json!({"z":"prop","n":1 + r.below(weights)}) } else { weight(r) };
                        if let Some(sh) = sh {
                            v["sh"] = json!(sh);
                        } else if hi {
                            let (h, lo) = (r.below(6), r.below(9));
                            v["hi"] = json!(h);
                            v["lo"] = json!(lo);
                            v["n"] = json!(h * 1_000_000 + lo);
                        }
                        v
                    }
                };
                let p = if v["z"] == "dyn" && !(c.misuse && r.chance(1, 6)) { doc_pane(r, c, t) } else { tree(r, c, t, depth + 1) };
                v["p"] = json!(p);
                s.push(v);
            }
            let k = if r.chance(1, 2) { "horz" } else { "vert" };
            push(t, json!({"k":k,"s":s}))
        }
        1 => doc_pane(r, c, t),
        2 => {
            let ch = if c.wide_fill && r.chance(1, 4) {
                *r.pick(WIDE_FILLS)
            } else {
                t.fills += 1;
                FILLS[(t.fills - 1) % FILLS.len()]
            };
            push(t, json!({"k":"fill","ch":ch.to_string()}))
        }
        _ => {
            t.styles += 1;
            let st = format!("P{}", t.styles);
            let p = tree(r, c, t, depth + 1);
            push(t, json!({"k":"style","st":st,"p":p}))
        }
    }
}

/// A document with its printing options.
fn doc(r: &mut Rng, mode: &str) -> Value {
    let mut p = Profile::base();
    p.zero_w = false;
    p.eol = 0;
    p.mark = 2;
    p.max_nodes = 1 + r.below(9);
    p.max_term = 8;
    match mode {
        "P04" => p.nl = 5,
        "P06" => p.style = 4,
        "P07" => {
            p.mismatch = r.chance(1, 4);
            p.eol = r.below(2);
            if r.chance(1, 4) {
                // text may come after an end of line (of another node)
                p.eolkids = true;
                p.nl = 5;
            }
        }
        _ => (),
    }
    if mode != "L13" && r.chance(1, 25) {
        // a document of many lines
        p.max_nodes = 20 + r.below(60);
        p.nl = 5;
    }
    let d = if mode == "P01" || mode == "L13" || r.chance(1, 6) {
        // plain lines of text
        let n = if mode != "L13" && r.chance(1, 15) { 6 + r.below(60) } else { r.below(6) };
        let mut t = T::Empty;
        for i in 0..n {
            let s = rand_str(r, &p, 9);
            t = if i == 0 { T::Lit(s) } else { T::Cat(b(T::Cat(b(t), b(T::Nl))), b(T::Lit(s))) };
        }
        Doc { notes: vec![t], nodes: vec![Node { n: 0, text: None, ch: vec![], conds: vec![], style: "n1".into() }] }
    } else {
        gen_doc(r, &p)
    };
    let (path, tgt, pos) = match open_op(r, &d, 0) {
        Op::Open { path, tgt, pos, .. } => (path, tgt, pos),
        _ => unreachable!(),
    };
    let (n, dd) = d.tables();
    let fh = match r.below(6) {
        0 => 0,
        1 => 64,
        2 => 32,
        3 => *r.pick(&[16, 48, 8, 56]),
        _ => r.below(65),
    };
    // (with an odd denominator there are no ties, which single-precision numbers could not represent)
    let fd = if r.chance(1, 3) { *r.pick(&[3, 7, 9, 11, 33]) } else { 64 };
    let fh = if fd == 64 { fh } else { r.below(fd + 1) };
    let ws = *r.pick(&["full", "full", "fixed", "nomore"]);
    let wn = *r.pick(&[0, 1, 5, 8, 10, 13, 20, 30, 80]);
    json!({"N":n,"D":dd,"path":path,"tgt":tgt,"pos":pos,"fh":fh,"fd":fd,"ws":ws,"wn":wn,"sf":r.chance(if mode == "P05" {4} else {2}, 5)})
}

pub fn make(mode: &str, r: &mut Rng, id: &str) -> Option<Value> {
    let mut c = Cfg { split: 4, doc: 4, fill: 3, style: 1, none: 1, fix: 2, dynamic: 2, prop: 3, misuse: false, wide_fill: true, max_depth: 3, mixed: mode != "L13" };
    match mode {
        "P01" => {
            c.doc = 0;
            c.fill = 6;
            c.style = 0;
            c.none = 0;
            c.dynamic = 1;
            c.wide_fill = false;
        }
        "P02" => c.none = 2,
        "P03" => {
            c.dynamic = 0;
            c.fill = 1;
            c.doc = 8;
            c.split = 2;
            c.style = 0;
            c.max_depth = 2;
            c.none = 0;
        }
        "P04" => {
            c.dynamic = 7;
            c.max_depth = 2;
        }
        "P05" => {
            c.doc = 8;
            c.fill = 1;
            c.none = 0;
        }
        "P06" => {
            c.style = 6;
            c.fill = 2;
            c.none = 0;
            c.max_depth = 5;
        }
        "P07" => {
            c.misuse = r.chance(1, 2);
            c.doc = 6;
            c.dynamic = 4;
        }
        "P08" => c.none = 0,
        "L13" => {
            c.fill = 5;
            c.doc = 2;
            c.prop = 4;
        }
        _ => (),
    }
    let ndocs = 1 + r.below(3);
    let mut t = Tree { p: vec![], fills: r.below(FILLS.len()), ndocs, styles: 0 };
    let root = tree(r, &c, &mut t, 0);
    let (mut w, mut h) = match r.below(10) {
        0 => (r.below(3), r.below(8)),
        1 => (r.below(40), r.below(3)),
        2 if mode != "P07" && r.chance(1, 2) => (1 + r.below(36), 12 + r.below(50)),
        3 if mode != "P07" && r.chance(1, 3) => (36 + r.below(260), 1 + r.below(5)),
        _ => (1 + r.below(36), 1 + r.below(12)),
    };
    let mut docs: Vec<Value> = (0..ndocs).map(|_| doc(r, mode)).collect();
    let mut hmax = false;
    if mode == "L13" {
        w = *r.pick(&[0, 3, 32767, 32768, 40000, 65533, 65534, 65535]);
        h = 1 + r.below(4);
        hmax = r.chance(1, 4);
        for d in docs.iter_mut() {
            if r.chance(1, 2) {
                d["wn"] = json!(*r.pick(&[0, 32768, 65534, 65535]));
            }
            if r.chance(1, 3) {
                // very wide text: plain lines of one repeated character
                let mut t = T::Empty;
                for i in 0..1 + r.below(3) {
                    let s = if r.chance(2, 3) { huge_text(r) } else { rand_str(r, &Profile { zero_w: false, ..Profile::base() }, 5) };
                    t = if i == 0 { T::Lit(s) } else { T::Cat(b(T::Cat(b(t), b(if r.chance(1, 2) { T::Nl } else { T::Empty }))), b(T::Lit(s))) };
                }
                let x = Doc { notes: vec![t], nodes: vec![Node { n: 0, text: None, ch: vec![], conds: vec![], style: "n1".into() }] };
                let (n, dd) = x.tables();
                d["N"] = json!(n);
                d["D"] = json!(dd);
                d["path"] = json!([]);
                d["tgt"] = json!(*r.pick(&["start", "end"]));
                d["pos"] = json!(0);
            }
        }
        if hmax {
            // a window of unbounded height: only panes that don't ask for all of it
            let k = 1 + r.below(3);
            t.p.clear();
            let mut s = vec![];
            for _ in 0..k {
                c.none = 0;
                let p = doc_pane(r, &c, &mut t);
                s.push(if r.chance(1, 4) { json!({"z":"fix","n":1 + r.below(5),"p":p}) } else { json!({"z":"dyn","n":0,"p":p}) });
            }
            t.p.push(json!({"k":"vert","s":s}));
            h = 1_000_000;
            w = *r.pick(&[0, 3, 20, 80, 65535]);
        }
    }
    let tall = matches!(mode, "L13" | "P01" | "P02" | "P04" | "P05") && !hmax && r.chance(1, if mode == "L13" { 3 } else { 12 });
    if tall {
        // a window of very many rows, most of them in panes that show nothing
        w = r.below(24);
        h = *r.pick(&[65535, 65536, 65537, 65540, 70000, 131072, 131075, 200000]) + r.below(3);
        t.p.clear();
        let blank = push(&mut t, json!({"k":"doc","d":0}));
        let mut s = vec![];
        let mut left = h;
        c.none = 0;
        for _ in 0..2 + r.below(4) {
            s.push(match r.below(6) {
                0 | 1 => {
                    let n = if r.chance(1, 2) { left.saturating_sub(r.below(12)) } else { r.below(left + 1) };
                    left -= n;
                    json!({"z":"fix","n":n,"p":blank})
                }
                2 => {
                    let n = 1 + r.below(3);
                    left = left.saturating_sub(n);
                    let ch = r.pick(FILLS).to_string();
                    let p = push(&mut t, json!({"k":"fill","ch":ch}));
                    json!({"z":"fix","n":n,"p":p})
                }
                3 | 4 => {
                    let p = doc_pane(r, &c, &mut t);
                    json!({"z":"dyn","n":0,"p":p})
                }
                _ => json!({"z":"prop","n":1 + r.below(3),"p":blank}),
            });
        }
        t.p.push(json!({"k":"vert","s":s}));
    }
    let root = if hmax || tall { t.p.len() } else { root };
    let mut inp = json!({"id":id,"mode":mode,"w":w,"h":h,"hmax":hmax,"style":"W","P":t.p,"p0":root,"docs":docs,"dflt":r.chance(1,3),
        "wide": WIDE.iter().map(|c| c.to_string()).collect::<Vec<_>>(), "faults":[["none",0]]});
    if mode == "P07" {
        let quiet = exec(&inp)?;
        let v = &quiet["ev"][0];
        let mut f = vec![json!(["none", 0])];
        let nw = v["nw"].as_u64().unwrap();
        let step = 1 + nw / 12;
        let mut k = 1;
        while k <= nw {
            f.push(json!(["win", k]));
            k += 1 + r.below(2 * step as usize) as u64;
        }
        for (i, n) in v["nd"].as_array().unwrap().iter().enumerate() {
            let n = n.as_u64().unwrap();
            let step = 1 + n / 6;
            let mut k = 1 + r.below(step as usize) as u64;
            while k <= n {
                f.push(json!(["doc", k, i + 1]));
                k += 1 + r.below(2 * step as usize) as u64;
            }
        }
        inp["faults"] = json!(f);
    } else {
        let quiet = exec(&inp)?;
        if quiet["ev"][0]["r"] != "ok" && quiet["ev"][0]["r"] != "panic" {
            // a focus that does not exist: focus on the root instead
            for d in inp["docs"].as_array_mut().unwrap() {
                d["path"] = json!([]);
                d["tgt"] = json!(*r.pick(&["start", "end"]));
            }
        }
        if mode == "P08" {
            inp["faults"] = json!([["plain", 0]]);
        }
    }
    Some(inp)
}
