//! Cases per property: document, width, root style, operation script.
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use serde_json::{json, Value};

pub fn profile(mode: &str, r: &mut Rng) -> Profile {
    let mut p = Profile::base();
    match mode {
        "L01" => {
            p.style = 0;
            p.max_nodes = 1 + r.below(20);
        }
        "L02" => p.max_nodes = 1 + r.below(24),
        "L03" => {
            p.mark = 4;
            p.max_nodes = 1 + r.below(20);
        }
        "L04" => {
            p.structure = true;
            p.check = 4;
            p.nl = 2;
            p.max_nodes = 1 + r.below(24);
        }
        "L05" | "X04P" => {
            p.style = 5;
            p.indent = 3;
        }
        "L07" => {
            p.eol = 5;
            p.max_term = 16;
        }
        "L08" => {
            p.mismatch = true;
            p.check = 3;
            p.structure = r.chance(1, 2);
        }
        "L10" => {
            p.mismatch = r.chance(1, 2);
            p.check = 4;
            p.style = 4;
            p.structure = true;
        }
        "L11" => {
            p.max_nodes = if r.chance(1, 2) { 20 } else { 60 + r.below(140) };
            p.nl = 5;
            p.max_term = 8;
            p.templates = 7;
        }
        "L13" => {
            p.max_nodes = 1 + r.below(8);
            p.max_term = 9;
            p.cho = 6;
            p.indent = 4;
        }
        "X05" => {
            p.eol = 2;
            p.cho = 6;
            p.max_nodes = 1 + r.below(12);
            p.join = true;
        }
        "L09" => {
            p.max_nodes = 6;
            p.max_term = 8;
            p.style = 2;
            p.check = 3;
            p.structure = r.chance(1, 2);
            if r.chance(1, 3) {
                // several lines, printed as a whole (see script)
                p.max_nodes = 10 + r.below(20);
                p.max_text = 12;
                p.nl = 5;
                p.max_term = 12;
            }
        }
        _ => {}
    }
    if matches!(mode, "L01" | "L02" | "L03" | "L07" | "L09" | "X05") && r.chance(1, 5) {
        p.eolkids = true;
        p.eol = p.eol.max(2);
    } else if matches!(mode, "L01" | "L02" | "L03" | "L04" | "L05" | "L08" | "L10" | "X05") && r.chance(1, 40) {
        p.long = true;
    }
    if r.chance(1, 5) {
        p.max_term = 24;
        p.max_nodes = 1 + r.below(6);
    }
    p
}

pub fn pick_width(r: &mut Rng, p: &Profile) -> u16 {
    match r.below(20) {
        0 => 0,
        1 => 65535,
        2 => 100 + r.below(500) as u16,
        3 => 1,
        _ => {
            if p.max_text > 20 {
                (1 + r.below(4 * p.max_text)) as u16
            } else {
                (2 + r.below(34)) as u16
            }
        }
    }
}

pub fn random_path(r: &mut Rng, d: &Doc, bad: bool) -> Vec<usize> {
    let mut path = vec![];
    let mut at = 0;
    loop {
        let ch = &d.nodes[at].ch;
        if bad && r.chance(1, 12) {
            path.push(if r.chance(1, 4) { far_pos(r) } else { ch.len() + r.below(2) });
            return path;
        }
        if ch.is_empty() || r.chance(1, 4) {
            return path;
        }
        let i = r.below(ch.len());
        path.push(i);
        at = ch[i];
    }
}
pub fn random_target(r: &mut Rng) -> (&'static str, usize) {
    match r.below(7) {
        0 | 1 => ("start", 0),
        2 | 3 => ("end", 0),
        4 => ("mark", 0),
        5 => ("text", r.below(9)),
        _ => {
            let most = if r.chance(1, 6) { 300 } else { 5 };
            ("text", if r.chance(1, 8) { far_pos(r) } else { r.below(most) })
        }
    }
}
fn path_to(d: &Doc, node: usize) -> Vec<usize> {
    let mut p = vec![];
    let mut at = node;
    while let Some((par, i)) = d.nodes.iter().enumerate().find_map(|(k, x)| x.ch.iter().position(|c| *c == at).map(|i| (k, i))) {
        p.push(i);
        at = par;
    }
    p.reverse();
    p
}
/// A focus request biased towards ones that can succeed.
pub fn open_op(r: &mut Rng, d: &Doc, sid: usize) -> Op {
    let (mut tgt, mut pos) = random_target(r);
    let path = if r.chance(1, 2) {
        let want_text = tgt == "text";
        let c: Vec<usize> = (0..d.nodes.len()).filter(|i| !want_text || d.nodes[*i].text.is_some()).collect();
        if c.is_empty() {
            tgt = "start";
            vec![]
        } else {
            let node = *r.pick(&c);
            if let (true, Some(s)) = (want_text && r.chance(1, 2), &d.nodes[node].text) {
                // between two characters that go together
                if let Some(i) = s.find(LAM_ALEF) {
                    pos = s[..i].chars().count() + 1;
                }
            }
            path_to(d, node)
        }
    } else {
        random_path(r, d, true)
    };
    Op::Open { sid, path, tgt, pos }
}

/// Interleaved use of several sessions on one document.
pub fn sessions(r: &mut Rng, d: &Doc, first_sid: usize, n: usize) -> Vec<Op> {
    let mut ops = vec![];
    let mut live = vec![];
    let mut next = first_sid;
    while next < first_sid + n || !live.is_empty() {
        if next < first_sid + n && (live.is_empty() || r.chance(1, 3)) {
            ops.push(open_op(r, d, next));
            live.push(next);
            next += 1;
            continue;
        }
        let k = r.below(live.len());
        let s = live[k];
        match r.below(12) {
            0..=3 => ops.push(Op::Up(s)),
            4..=7 => ops.push(Op::Down(s)),
            8 => {
                ops.push(Op::UpAll(s));
                ops.push(Op::DownAll(s));
                live.remove(k);
            }
            9 => {
                ops.push(Op::DownAll(s));
                ops.push(Op::UpAll(s));
                live.remove(k);
            }
            10 => {
                for _ in 0..1 + r.below(3) {
                    ops.push(Op::Up(s));
                    ops.push(Op::Down(s));
                }
            }
            _ => {
                ops.push(Op::Drop(s));
                live.remove(k);
            }
        }
    }
    ops
}

fn opn(sid: usize, path: Vec<usize>, tgt: &'static str, pos: usize) -> Op {
    Op::Open { sid, path, tgt, pos }
}

/// The operation script of a mode.
pub fn script(mode: &str, r: &mut Rng, d: &Doc) -> Vec<Op> {
    let whole = vec![opn(0, vec![], "start", 0), Op::DownAll(0), Op::Up(0)];
    let mut ops = vec![];
    match mode {
        "L01" => {
            ops.extend(whole);
            ops.push(Op::Str);
        }
        "L13" => {
            ops.extend(whole);
            ops.push(Op::Str);
            for s in 1..4 {
                let mut o = open_op(r, d, s);
                if let Op::Open { pos, .. } = &mut o {
                    // the specification cannot split an abbreviated text
                    *pos = if r.chance(1, 2) { 0 } else { 1_000_000 };
                }
                ops.push(o);
                ops.push(Op::UpAll(s));
                ops.push(Op::DownAll(s));
            }
        }
        "X05" => {
            ops.push(Op::Oracle);
            ops.push(Op::Str);
        }
        "L02" => {
            ops.extend(whole);
            let n = 2 + r.below(4);
            ops.extend(sessions(r, d, 1, n));
        }
        "L03" => {
            for s in 0..10 {
                ops.push(open_op(r, d, s));
            }
        }
        "L04" | "L05" => {
            ops.extend(whole);
            ops.push(open_op(r, d, 1));
            ops.push(Op::UpAll(1));
            ops.push(open_op(r, d, 2));
            ops.push(Op::DownAll(2));
            ops.push(Op::Str);
        }
        "L11" => {
            for s in 0..3 {
                let mut o = open_op(r, d, s);
                if r.chance(3, 4) {
                    o = opn(s, random_path(r, d, false), if r.chance(1, 2) { "start" } else { "end" }, 0);
                }
                ops.push(o);
                for _ in 0..r.below(6) {
                    ops.push(if r.chance(1, 2) { Op::Up(s) } else { Op::Down(s) });
                }
            }
        }
        "L07" => {
            ops.extend(whole);
            ops.push(opn(1, vec![], "end", 0));
            ops.push(Op::UpAll(1));
            ops.push(Op::Str);
            for s in 2..6 {
                ops.push(open_op(r, d, s));
                ops.push(Op::UpAll(s));
                ops.push(Op::DownAll(s));
            }
        }
        "L08" => {
            ops.extend(whole);
            ops.push(Op::Str);
            for s in 2..6 {
                ops.push(open_op(r, d, s));
                ops.push(Op::UpAll(s));
                ops.push(Op::DownAll(s));
            }
        }
        "L09" if d.nodes.len() > 6 => ops.push(Op::Str),
        _ => {
            ops.extend(whole);
            ops.extend(sessions(r, d, 1, 2));
            if mode == "L09" && r.chance(1, 3) {
                ops.push(Op::Str);
            }
        }
    }
    ops
}

/// Text of about n columns, made of one repeated character.
pub fn huge_text(r: &mut Rng) -> String {
    let n = *r.pick(&[5, 3001, 20000, 32768, 40000, 65530, 65534, 65535, 65536, 65537, 65546, 70000, 131072]);
    if r.chance(1, 4) {
        "中".repeat(n / 2)
    } else {
        r.pick(&["x", "y", "z"]).repeat(n)
    }
}
fn huge(r: &mut Rng, d: &mut Doc) {
    fn go(r: &mut Rng, t: &mut T, left: &mut usize) {
        match t {
            T::Lit(s) | T::Indent(s, _, _) if *left > 0 && r.chance(1, 3) => {
                *left -= 1;
                *s = huge_text(r);
            }
            _ => (),
        }
        match t {
            T::Flat(a) | T::Indent(_, _, a) | T::Style(_, a) => go(r, a, left),
            T::Cat(a, c) | T::Cho(a, c) | T::Check(_, _, a, c) | T::Fold(a, c) => {
                go(r, a, left);
                go(r, c, left);
            }
            T::Count(a, c, e) => {
                go(r, a, left);
                go(r, c, left);
                go(r, e, left);
            }
            _ => (),
        }
    }
    let mut left = 3;
    for t in d.notes.iter_mut() {
        go(r, t, &mut left);
    }
    for x in d.nodes.iter_mut() {
        if x.text.is_some() && r.chance(1, 4) {
            x.text = Some(huge_text(r));
        }
    }
}

/// Build the real notations: through validation, or bypassing it (so that a property does not
/// depend on validation); optionally through serialization and back.
pub fn build(d: &Doc, validate: bool, serde_too: bool) -> Option<Vec<VNote>> {
    let mut v = vec![];
    for t in &d.notes {
        let mut n = t.real();
        if serde_too {
            n = serde_json::from_str(&serde_json::to_string(&n).ok()?).ok()?;
        }
        v.push(if validate { n.validate().ok()? } else { n.cheat_validation_for_testing_only() });
    }
    Some(v)
}

/// The input of a case: everything needed to run it again.
pub fn input(id: &str, mode: &str, d: &Doc, w: u16, root: &str, ops: &[Op], dflt: bool, serde: bool) -> Value {
    let (n, dd) = d.tables();
    json!({"id": id, "mode": mode, "W": w, "root": root, "N": n, "D": dd, "dflt": dflt, "serde": serde,
           "ops": ops.iter().map(|o| o.to_json()).collect::<Vec<_>>()})
}

pub fn validated(mode: &str) -> bool {
    matches!(mode, "L07" | "L08" | "L10")
}

pub fn make(mode: &str, r: &mut Rng, id: &str) -> Option<Value> {
    if mode == "L08" && r.chance(1, 40) {
        return big(r, id);
    }
    let p = profile(mode, r);
    let d = match mode {
        // documents whose notations the generator does not know to be valid
        "L07" | "L08" | "L10" if r.chance(1, 3) => wild_doc(r, &p),
        _ => gen_doc(r, &p),
    };
    let mut d = d;
    let mut w = pick_width(r, &p);
    match mode {
        "X05" => w = w.min(9999),
        "L13" => {
            huge(r, &mut d);
            w = *r.pick(&[0, 1, 3, 10, 80, 4464, 5000, 32767, 32768, 40000, 65534, 65534, 65535]);
        }
        _ => (),
    }
    if matches!(mode, "L01" | "L02" | "L03" | "L04" | "L05" | "L08" | "L11" | "X05") && r.chance(1, 3) {
        // a width that some line just fits, or just doesn't
        let whole = exec_case(&input(id, mode, &d, w, "", &[opn(0, vec![], "start", 0), Op::DownAll(0)], false, false))?;
        let mut widths: Vec<u64> = vec![];
        for ev in whole["ev"].as_array().unwrap() {
            let sum = |k: &str| -> u64 { ev[k].as_array().map_or(0, |a| a.iter().map(|s| s[1].as_u64().unwrap_or(0)).sum()) };
            widths.push(sum("L") + sum("R"));
        }
        let tight: Vec<u64> = widths.into_iter().filter(|x| *x > 1 && *x < 9999).collect();
        if !tight.is_empty() {
            w = (*r.pick(&tight) - r.below(2) as u64) as u16;
        }
    }
    let root = if mode == "L05" && r.chance(2, 3) || r.chance(1, 8) { "R" } else { "" };
    let mut ops = script(mode, r, &d);
    let (dflt, serde) = (r.chance(1, 3), false);
    let start = r.next();
    if mode == "L09" {
        // first without a fault, to learn how many document calls the script makes; then with a
        // fault at each of them (or a sample of them)
        let quiet = exec_case(&input(id, mode, &d, w, root, &ops, dflt, serde))?;
        let total: u64 = quiet["ev"].as_array().unwrap().iter().map(|v| v["nc"].as_u64().unwrap_or(0)).sum();
        let mut all = vec![Op::Run { fault: 0 }];
        all.extend(ops.clone());
        let step = 1 + total / 60;
        let mut k = 1 + start % step;
        while k <= total {
            all.push(Op::Run { fault: k });
            all.extend(ops.clone());
            k += step;
        }
        ops = all;
    }
    Some(input(id, mode, &d, w, root, &ops, dflt, serde))
}

/// Documents that show the same however often one of their nodes is repeated: a list with a child
/// that its fold skips (or that shows nothing), or a chain of nodes that show only their child. The
/// specification lays out the document without the repetition; with few repetitions they are
/// written out instead, so that the specification lays out the very document.
pub fn big(r: &mut Rng, id: &str) -> Option<Value> {
    let p = profile("L01", r);
    let times = if r.chance(1, 2) { r.below(6) } else { *r.pick(&[300, 5000, 60000]) };
    let w = pick_width(r, &p);
    let lit = |s: &str| b(T::Lit(s.to_owned()));
    let node = |n: usize, text: Option<&str>, ch: Vec<usize>, c: bool| Node {
        n,
        text: text.map(|s| s.to_owned()),
        ch,
        conds: if c { vec!["p".into()] } else { vec![] },
        style: "s".into(),
    };
    let mut ops;
    let (d, rep) = if r.chance(1, 2) {
        // a list
        let skip = r.chance(2, 3);
        let sep = match r.below(4) {
            0 => b(T::Cat(lit(","), b(T::Cho(lit(" "), b(T::Nl))))),
            1 => b(T::Nl),
            2 => lit(", "),
            _ => b(T::Empty),
        };
        let add = match r.below(3) {
            0 => b(T::Cat(b(T::Left), b(T::Cat(sep, b(T::Right))))),
            1 => b(T::Cat(b(T::Cat(b(T::Left), sep)), b(T::Right))),
            _ => b(T::Check("q".into(), Pos::Here, b(T::Empty), b(T::Cat(b(T::Left), b(T::Cat(sep, b(T::Right))))))),
        };
        let join = if skip {
            let keep = match r.below(4) {
                0 => b(T::Left),
                1 => b(T::Cat(b(T::Left), b(T::Empty))),
                2 => b(T::Style("A".into(), b(T::Left))),
                _ => b(T::Check("q".into(), Pos::Right, b(T::Empty), b(T::Left))),
            };
            b(T::Check("p".into(), Pos::Right, keep, add))
        } else {
            b(T::Cat(b(T::Left), b(T::Right)))
        };
        let fold = b(T::Fold(b(T::Child(0)), join));
        let root = match r.below(4) {
            0 => *fold,
            1 => T::Flat(fold),
            2 => T::Cat(lit("("), b(T::Cat(b(T::Indent("  ".into(), "".into(), fold)), lit(")")))),
            _ => T::Count(lit("none"), fold.clone(), fold),
        };
        let n = 2 + r.below(5);
        let at = r.below(n);
        let mut nodes = vec![node(0, None, (1..=n).collect(), false)];
        for k in 0..n {
            let txt = if k == at && !skip { "" } else { *r.pick(&["a", "bc", "", "def"]) };
            nodes.push(node(1, Some(txt), vec![], k == at));
        }
        let d = Doc { notes: vec![root, T::Text], nodes };
        ops = script("L01", r, &d);
        if at > 0 {
            ops.push(opn(1, vec![r.below(at)], if r.chance(1, 2) { "start" } else { "end" }, 0));
            ops.extend([Op::UpAll(1), Op::DownAll(1)]);
        }
        (d, json!({"k": "list", "node": 0, "pos": at, "times": times}))
    } else {
        // a chain
        let mut q = profile("L01", r);
        q.max_nodes = 1 + r.below(6);
        let mut d = gen_doc(r, &q);
        let child = b(T::Child(if r.chance(1, 2) { 0 } else { -1 }));
        let wrap = match r.below(6) {
            0 => *child,
            1 | 2 => T::Indent("".into(), if r.chance(1, 2) { "A".into() } else { "".into() }, child),
            3 => T::Style("B".into(), child),
            4 => T::Cat(b(T::Empty), child),
            _ => T::Count(b(T::Empty), child, b(T::Empty)),
        };
        // the wrapper goes below a new root, which is node 0
        for x in d.nodes.iter_mut() {
            for c in x.ch.iter_mut() {
                *c += 2;
            }
        }
        let (root, wr) = (d.notes.len(), d.notes.len() + 1);
        d.notes.push(if r.chance(1, 2) { T::Child(0) } else { T::Cat(lit("["), b(T::Cat(b(T::Child(0)), lit("]")))) });
        d.notes.push(wrap);
        let mut nodes = vec![node(root, None, vec![1], false), node(wr, None, vec![2], false)];
        nodes.extend(d.nodes);
        d.nodes = nodes;
        ops = script("L01", r, &d);
        let mut path = random_path(r, &d, false);
        if path.len() < 2 {
            path = vec![0, 0];
        }
        ops.push(opn(1, path, if r.chance(1, 2) { "start" } else { "end" }, 0));
        ops.extend([Op::UpAll(1), Op::DownAll(1)]);
        (d, json!({"k": "chain", "node": 1, "pos": 0, "times": times}))
    };
    let root = if r.chance(1, 2) { "R" } else { "" };
    if times < 10 {
        let (d, ops) = repeat(d, ops, &rep);
        return Some(input(id, "L08", &d, w, root, &ops, true, false));
    }
    let mut v = input(id, "L08", &d, w, root, &ops, true, false);
    v.as_object_mut().unwrap().insert("rep".into(), rep);
    Some(v)
}
/// The document of a case with a repetition, and the operations on it.
fn repeat(mut d: Doc, mut ops: Vec<Op>, rep: &Value) -> (Doc, Vec<Op>) {
    let n = |f: &str| rep[f].as_u64().unwrap() as usize;
    let (node, pos, times) = (n("node"), n("pos"), n("times"));
    if rep["k"] == "list" {
        let ch = &mut d.nodes[node].ch;
        let again = vec![ch[pos]; times];
        ch.splice(pos..pos, again);
    } else {
        for _ in 0..times {
            // a copy of the node, between it and its child
            let copy = d.nodes[node].clone();
            d.nodes.push(copy);
            d.nodes[node].ch = vec![d.nodes.len() - 1];
        }
        for op in ops.iter_mut() {
            if let Op::Open { path, .. } = op {
                if path.len() >= 2 {
                    path.splice(1..1, vec![0; times]);
                }
            }
        }
    }
    (d, ops)
}

/// Run a case on the real code: its input plus the recorded events.
pub fn exec_case(inp: &Value) -> Option<Value> {
    if inp.get("rep").is_some() && !SMALL_STACK.get() {
        // what the printer needs of the stack does not depend on the size of the document
        let inp = inp.clone();
        let t = std::thread::Builder::new().stack_size(512 << 10).spawn(move || {
            SMALL_STACK.set(true);
            exec_case(&inp)
        });
        return t.unwrap().join().unwrap();
    }
    if inp["mode"] == "X04P" {
        // the same prints with the notations as they are, and after serialization
        let mut once = inp.clone();
        once["mode"] = json!("L05");
        let plain = exec_case(&once)?["ev"].take();
        once["serde"] = json!(true);
        let after = exec_case(&once).map_or(json!([]), |mut v| v["ev"].take());
        let mut out = inp.clone();
        out.as_object_mut().unwrap().insert("ev".into(), json!([{"e": "both", "r": "ok", "plain": plain, "after": after}]));
        return Some(out);
    }
    let mode = inp["mode"].as_str().unwrap();
    let d = Doc::from_tables(inp["N"].as_array().unwrap(), inp["D"].as_array().unwrap());
    let notes = build(&d, validated(mode), inp["serde"] == true)?;
    let root = inp["root"].as_str().unwrap();
    let root = if root.is_empty() { None } else { Some(St(root.to_owned())) };
    let mut ops: Vec<Op> = inp["ops"].as_array().unwrap().iter().map(Op::from_json).collect();
    let mut d = d;
    if let Some(rep) = inp.get("rep") {
        (d, ops) = repeat(d, ops, rep);
    }
    let want = Want { calls: matches!(mode, "L10" | "L11") };
    let e = Env::new(d, notes);
    let w = inp["W"].as_u64().unwrap() as u16;
    let mut ev = if inp["dflt"] == true { run::<H2>(&e, w, &root, &ops, want) } else { run::<H>(&e, w, &root, &ops, want) };
    if let Some(rep) = inp.get("rep").filter(|x| x["k"] == "chain") {
        // paths are recorded as in the document without the repetition
        let times = rep["times"].as_u64().unwrap() as usize;
        for v in ev.iter_mut() {
            if let Some(p) = v.get_mut("path").and_then(|p| p.as_array_mut()).filter(|p| p.len() > times) {
                p.drain(1..1 + times);
            }
        }
    }
    if mode == "L09" {
        let mut at = 0;
        for v in ev.iter_mut() {
            if v["e"] == "run" {
                at = v["fault"].as_u64().unwrap();
            } else {
                v.as_object_mut().unwrap().insert("at".into(), json!(at));
            }
        }
    }
    let mut out = inp.clone();
    out.as_object_mut().unwrap().insert("ev".into(), Value::Array(ev));
    Some(out)
}
