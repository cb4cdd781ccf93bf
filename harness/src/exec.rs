//! Runs an operation script on the real printer and records one event per API call.
use crate::model::*;
use partial_pretty_printer as ppp;
use ppp::{pretty_print, pretty_print_to_string, FocusTarget, PrintingError};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub enum Op {
    /// Forget all sessions and arm a fault at the k'th document call from now (0 = none).
    Run { fault: u64 },
    Open { sid: usize, path: Vec<usize>, tgt: &'static str, pos: usize },
    Up(usize),
    Down(usize),
    UpAll(usize),
    DownAll(usize),
    Drop(usize),
    Str,
    Oracle,
}

impl Op {
    pub fn to_json(&self) -> Value {
        match self {
            Op::Run { fault } => json!(["run", fault]),
            Op::Open { sid, path, tgt, pos } => json!(["open", sid, path, tgt, pos]),
            Op::Up(s) => json!(["up", s]),
            Op::Down(s) => json!(["down", s]),
            Op::UpAll(s) => json!(["upall", s]),
            Op::DownAll(s) => json!(["downall", s]),
            Op::Drop(s) => json!(["drop", s]),
            Op::Str => json!(["str"]),
            Op::Oracle => json!(["oracle"]),
        }
    }
    pub fn from_json(v: &Value) -> Op {
        let n = |i: usize| v[i].as_u64().unwrap() as usize;
        match v[0].as_str().unwrap() {
            "run" => Op::Run { fault: n(1) as u64 },
            "open" => Op::Open {
                sid: n(1),
                path: v[2].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
                tgt: match v[3].as_str().unwrap() {
                    "start" => "start",
                    "end" => "end",
                    "mark" => "mark",
                    _ => "text",
                },
                pos: n(4),
            },
            "up" => Op::Up(n(1)),
            "down" => Op::Down(n(1)),
            "upall" => Op::UpAll(n(1)),
            "downall" => Op::DownAll(n(1)),
            "drop" => Op::Drop(n(1)),
            "str" => Op::Str,
            _ => Op::Oracle,
        }
    }
}

pub fn target(tgt: &str, pos: usize) -> FocusTarget {
    match tgt {
        "start" => FocusTarget::Start,
        "end" => FocusTarget::End,
        "mark" => FocusTarget::Mark,
        _ => FocusTarget::Text(real_pos(pos)),
    }
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub fn err_json(e: &PrintingError<Fault>) -> Value {
    use PrintingError::*;
    let v = |k: &str, i: i64, n: i64| json!({"k": k, "i": i, "n": n});
    match e {
        InvalidPath(i) => v("InvalidPath", model_pos(*i), 0),
        TextNotationOnTextlessDoc => v("TextNotationOnTextlessDoc", 0, 0),
        ChildIndexOutOfBounds { index, len } => v("ChildIndexOutOfBounds", model_index(*index), *len as i64),
        ChildNotationOnChildlessDoc => v("ChildNotationOnChildlessDoc", 0, 0),
        CheckPosChildIndexOutOfBounds { index, len } => v("CheckPosChildIndexOutOfBounds", model_index(*index), *len as i64),
        CheckPosChildOnChildlessDoc => v("CheckPosChildOnChildlessDoc", 0, 0),
        CountNotationOnChildlessDoc => v("CountNotationOnChildlessDoc", 0, 0),
        NumChildrenChanged => v("NumChildrenChanged", 0, 0),
        TextAfterEndOfLine => v("TextAfterEndOfLine", 0, 0),
        MissingFocusMark => v("MissingFocusMark", 0, 0),
        MissingText => v("MissingText", 0, 0),
        PrettyDoc(Fault(k)) => v("PrettyDoc", *k as i64, 0),
    }
}

fn segs<'d, D: Mk<'d>>(s: &[ppp::Segment<'d, D>]) -> Value {
    // (very many empty pieces: see cases::repeat)
    let keep = |x: &&ppp::Segment<'d, D>| s.len() < 250 || !x.str.is_empty() || x.width > 0;
    Value::Array(s.iter().filter(keep).map(|x| json!([enc(x.str), x.width, x.style.0])).collect())
}

type Iter<'d, D> = Box<dyn Iterator<Item = Result<ppp::Line<'d, D>, PrintingError<Fault>>> + 'd>;

/// What an event should carry besides the result.
#[derive(Clone, Copy, Default)]
pub struct Want {
    pub calls: bool,
}

pub const MAX_LINES: usize = 4000;

pub fn run<'d, D: Mk<'d> + 'd>(e: &'d Env, width: u16, root: &'d Option<St>, ops: &[Op], want: Want) -> Vec<Value> {
    let mut ev = Vec::new();
    let mut ups: HashMap<usize, Iter<'d, D>> = HashMap::new();
    let mut dns: HashMap<usize, Iter<'d, D>> = HashMap::new();
    e.log_on.set(want.calls);
    for op in ops {
        match op {
            Op::Run { fault } => {
                ups.clear();
                dns.clear();
                e.calls.set(0);
                e.failed.set(false);
                e.after_fail.set(0);
                e.fail_at.set(if *fault == 0 { u64::MAX } else { *fault });
                ev.push(json!({"e":"run","fault":fault}));
            }
            Op::Drop(s) => {
                ups.remove(s);
                dns.remove(s);
            }
            Op::Open { sid, path, tgt, pos } => {
                let before = begin(e);
                let res = catch_unwind(AssertUnwindSafe(|| {
                    pretty_print::<D>(D::mk(e, 0), width, &path.iter().map(|i| real_pos(*i)).collect::<Vec<_>>(), target(tgt, *pos), root.as_ref())
                        .map(|(u, f, d)| (Box::new(u) as Iter<'d, D>, f, Box::new(d) as Iter<'d, D>))
                }));
                let mut v = json!({"e":"open","sid":sid,"path":path,"tgt":tgt,"pos":pos});
                match res {
                    Ok(Ok((u, f, d))) => {
                        let m = v.as_object_mut().unwrap();
                        m.insert("r".into(), json!("ok"));
                        m.insert("L".into(), segs(&f.left_segments));
                        m.insert("R".into(), segs(&f.right_segments));
                        let w = catch_unwind(AssertUnwindSafe(|| (f.left_width(), f.right_width(), f.width())));
                        match w {
                            Ok((a, b, c)) => { m.insert("ws".into(), json!([a, b, c])); }
                            Err(p) => { m.insert("r".into(), json!("panic")); m.insert("msg".into(), json!(panic_text(p))); }
                        }
                        let (ls, rs, fs) = (f.to_left_string(), f.to_right_string(), f.to_string());
                        m.insert("ss".into(), json!([enc_line(&ls), enc_line(&rs), enc_line(&fs)]));
                        ups.insert(*sid, u);
                        dns.insert(*sid, d);
                    }
                    Ok(Err(x)) => fail(&mut v, &x),
                    Err(p) => panicked(&mut v, p),
                }
                end(e, &mut v, before, want);
                ev.push(v);
            }
            Op::Up(s) | Op::UpAll(s) | Op::Down(s) | Op::DownAll(s) => {
                let (up, all) = match op {
                    Op::Up(_) => (true, false),
                    Op::UpAll(_) => (true, true),
                    Op::Down(_) => (false, false),
                    _ => (false, true),
                };
                for _ in 0..if all { MAX_LINES } else { 1 } {
                    let it = if up { ups.get_mut(s) } else { dns.get_mut(s) };
                    let Some(it) = it else { break };
                    let before = begin(e);
                    let res = catch_unwind(AssertUnwindSafe(|| it.next()));
                    let mut v = json!({"e": if up {"up"} else {"down"}, "sid": s});
                    let mut stop = false;
                    match res {
                        Ok(Some(Ok(line))) => {
                            let m = v.as_object_mut().unwrap();
                            m.insert("r".into(), json!("line"));
                            m.insert("L".into(), segs(&line.segments));
                            match catch_unwind(AssertUnwindSafe(|| line.width())) {
                                Ok(w) => { m.insert("ws".into(), json!([w])); }
                                Err(p) => { m.insert("r".into(), json!("panic")); m.insert("msg".into(), json!(panic_text(p))); }
                            }
                            m.insert("ss".into(), json!([enc_line(&line.to_string())]));
                        }
                        Ok(Some(Err(x))) => {
                            fail(&mut v, &x);
                            stop = true;
                        }
                        Ok(None) => {
                            v.as_object_mut().unwrap().insert("r".into(), json!("none"));
                            stop = true;
                        }
                        Err(p) => {
                            panicked(&mut v, p);
                            stop = true;
                        }
                    }
                    let bad = v["r"] == "err" || v["r"] == "panic";
                    end(e, &mut v, before, want);
                    if v["r"] == "err" {
                        // Lines after an error aren't promised to be anything, but asking for them must come to an end.
                        let (calls, fault) = (e.calls.get(), e.fail_at.get());
                        e.limit.set(calls.saturating_add(2_000_000));
                        e.fail_at.set(u64::MAX);
                        let it = if up { ups.get_mut(s) } else { dns.get_mut(s) }.unwrap();
                        let mut post = "endless".to_owned();
                        for _ in 0..MAX_LINES {
                            match catch_unwind(AssertUnwindSafe(|| it.next().is_none())) {
                                Ok(false) => continue,
                                Ok(true) => post = "ended".to_owned(),
                                Err(p) => post = panic_text(p),
                            }
                            break;
                        }
                        v["post"] = json!(post);
                        e.calls.set(calls);
                        e.fail_at.set(fault);
                    }
                    ev.push(v);
                    if bad {
                        // a failed iterator is not used any further
                        if up { ups.remove(s); } else { dns.remove(s); }
                    }
                    if stop {
                        break;
                    }
                }
            }
            Op::Str => {
                let before = begin(e);
                let res = catch_unwind(AssertUnwindSafe(|| pretty_print_to_string::<D>(D::mk(e, 0), width)));
                let mut v = json!({"e":"str"});
                match res {
                    Ok(Ok(s)) => {
                        let m = v.as_object_mut().unwrap();
                        m.insert("r".into(), json!("ok"));
                        m.insert("lines".into(), json!(s.split('\n').map(enc_line).collect::<Vec<_>>()));
                    }
                    Ok(Err(x)) => fail(&mut v, &x),
                    Err(p) => panicked(&mut v, p),
                }
                end(e, &mut v, before, want);
                ev.push(v);
            }
            Op::Oracle => {
                let before = begin(e);
                let res = catch_unwind(AssertUnwindSafe(|| ppp::testing::oracular_pretty_print::<D>(D::mk(e, 0), width)));
                let mut v = json!({"e":"oracle"});
                match res {
                    Ok(s) => {
                        let m = v.as_object_mut().unwrap();
                        m.insert("r".into(), json!("ok"));
                        m.insert("lines".into(), json!(s.split('\n').map(enc_line).collect::<Vec<_>>()));
                    }
                    Err(p) => panicked(&mut v, p),
                }
                end(e, &mut v, before, want);
                ev.push(v);
            }
        }
    }
    ev
}

fn begin(e: &Env) -> (u64, bool) {
    e.log.borrow_mut().clear();
    e.limit.set(e.calls.get().saturating_add(2_000_000));
    (e.calls.get(), e.failed.get())
}
fn fail(v: &mut Value, x: &PrintingError<Fault>) {
    let m = v.as_object_mut().unwrap();
    m.insert("r".into(), json!("err"));
    m.insert("err".into(), err_json(x));
}
fn panicked(v: &mut Value, p: Box<dyn std::any::Any + Send>) {
    let m = v.as_object_mut().unwrap();
    m.insert("r".into(), json!("panic"));
    m.insert("msg".into(), json!(panic_text(p)));
}
fn end(e: &Env, v: &mut Value, before: (u64, bool), want: Want) {
    let m = v.as_object_mut().unwrap();
    m.insert("nc".into(), json!(e.calls.get() - before.0));
    // did an injected fault fire during this very API call, and were calls made after it?
    let fired = e.failed.get() && !before.1;
    m.insert("fired".into(), json!(fired));
    m.insert("after".into(), json!(e.after_fail.get()));
    if want.calls {
        // the set of different calls made (their number is nc)
        let mut seen = std::collections::HashSet::new();
        let calls = e.log.borrow().iter().filter(|c| seen.insert(c.to_string())).cloned().collect();
        m.insert("calls".into(), Value::Array(calls));
    }
    if fired {
        // one fault per run
        e.failed.set(false);
        e.after_fail.set(0);
        e.fail_at.set(u64::MAX);
    }
}
