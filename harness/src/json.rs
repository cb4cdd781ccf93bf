//! The library's JSON documents (properties X01, X02).
use crate::exec::{panic_text, target};
use crate::model::{enc, width_of};
use crate::rng::Rng;
use partial_pretty_printer as ppp;
use ppp::doc_examples::json::*;
use ppp::doc_examples::{BasicStyle, Color};
use ppp::{pretty_print, pretty_print_to_string, Segment};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

const COLORS: [(&str, Color); 8] = [
    ("white", Color::White),
    ("black", Color::Black),
    ("red", Color::Red),
    ("green", Color::Green),
    ("yellow", Color::Yellow),
    ("blue", Color::Blue),
    ("magenta", Color::Magenta),
    ("cyan", Color::Cyan),
];
pub fn style_of(v: &Value) -> BasicStyle {
    let c = COLORS.iter().find(|(n, _)| *n == v[0].as_str().unwrap()).unwrap().1;
    let s = BasicStyle::new().color(c);
    if v[1] == true { s.bold() } else { s }
}
pub fn style_json(s: &BasicStyle) -> Value {
    json!([format!("{:?}", s.color).to_lowercase(), s.bold])
}
fn label(s: &str) -> &'static str {
    ["open", "close", "magenta", "blue", "yellow", "bold_green"].iter().find(|x| **x == s).unwrap()
}

/// Random JSON, as a table; returns the (1-based) index of the value.
struct Gen<'a> {
    r: &'a mut Rng,
    v: Vec<Value>,
    comments: bool,
    styles: bool,
    wide: bool,
}
impl Gen<'_> {
    fn push(&mut self, k: &str, s: &str, raw: &str, words: Vec<Value>, ch: Vec<usize>) -> usize {
        let mut x = json!({"k": k, "s": s, "w": width_of(s), "raw": raw, "words": words, "ch": ch, "ns": ["white", false], "ov": []});
        if self.styles && self.r.chance(1, 5) {
            let c = self.r.pick(&COLORS).0;
            x["ns"] = json!([c, self.r.chance(1, 2)]);
        }
        // (which colour a comment's words have when its prefix is overridden is not documented)
        if self.styles && k != "com" && self.r.chance(1, 5) {
            let n = 1 + self.r.below(3);
            x["ov"] = (0..n)
                .map(|_| json!([*self.r.pick(&["open", "close", "magenta", "blue", "yellow", "bold_green"]), self.r.pick(&COLORS).0, self.r.chance(1, 2)]))
                .collect();
        }
        self.v.push(x);
        self.v.len()
    }
    fn string(&mut self) -> String {
        let n = if self.r.chance(1, 8) { self.r.below(24) } else { self.r.below(6) };
        let plain: &[char] = &['a', 'b', 'c', ' ', '/', ',', '[', ']', '{', '}', ':', '0', 't'];
        let wide: &[char] = &['a', '中', ' ', 'é', 'e', '\u{301}', ',', '😀', '—', '\u{3000}'];
        let abc = if self.wide { wide } else { plain };
        (0..n).map(|_| *self.r.pick(abc)).collect()
    }
    fn value(&mut self, size: usize, depth: usize) -> usize {
        if size <= 1 || depth == 0 {
            return match self.r.below(10) {
                0 => self.push("null", "null", "", vec![], vec![]),
                1 => self.push("true", "true", "", vec![], vec![]),
                2 => self.push("false", "false", "", vec![], vec![]),
                3 | 4 => {
                    let s = self.string();
                    self.push("str", &s, "", vec![], vec![])
                }
                5 => self.push("arr", "", "", vec![], vec![]),
                7 => self.push("obj", "", "", vec![], vec![]),
                6 => {
                    // up to 15 digits: the shortest way to write them is the only one
                    let digits = 1 + self.r.below(15);
                    let point = self.r.below(digits + 1);
                    let mut s = String::new();
                    for i in 0..digits {
                        if i == point && i > 0 {
                            s.push('.');
                        }
                        let first_of_many = i == 0 && point != 1;
                        let last_of_fraction = i + 1 == digits && point > 0 && point < digits;
                        let lo = if first_of_many || last_of_fraction { 1 } else { 0 };
                        s.push(char::from(b'0' + (lo + self.r.below(10 - lo)) as u8));
                    }
                    if self.r.chance(1, 4) {
                        s.insert(0, '-');
                    }
                    self.push("num", &s, "", vec![], vec![])
                }
                _ => {
                    let s = *self.r.pick(&["0", "1", "7", "42", "-3", "100", "0.5", "-2.25", "1234567", "-0", "1000000000000000000000", "0.001", "0.1", "0.3", "9007199254740991", "123456789.123456", "0.0000001", "16777217"]);
                    self.push("num", s, "", vec![], vec![])
                }
            };
        }
        let most = if self.r.chance(1, 3) { 6 } else { 3 };
        let n = 1 + self.r.below(most);
        let obj = self.r.chance(1, 2);
        let mut ch = vec![];
        for _ in 0..n {
            if self.comments && self.r.chance(1, 4) {
                ch.push(self.comment());
                continue;
            }
            let share = (size - 1) / n;
            let sub = 1 + self.r.below(share.max(1) + 1);
            let x = self.value(sub, depth - 1);
            ch.push(if obj {
                let key = self.string();
                self.push("pair", &key, "", vec![], vec![x])
            } else {
                x
            });
        }
        self.push(if obj { "obj" } else { "arr" }, "", "", vec![], ch)
    }
    fn comment(&mut self) -> usize {
        let n = self.r.below(5);
        let mut raw = String::new();
        let mut words = vec![];
        let spaces: &[&str] = if self.r.chance(1, 3) { &[" ", "  ", "\n", "\t", "\u{a0}", "\u{3000}", "\r\n"] } else { &[" "] };
        if self.r.chance(1, 6) {
            raw.push_str(*self.r.pick(spaces));
        }
        for i in 0..n {
            let most = if self.r.chance(1, 5) { 9 } else { 4 };
            let len = 1 + self.r.below(most);
            let word: String = (0..len).map(|_| *self.r.pick(&['x', 'y', 'z', '"', '{', ']', ',', '/', '文'])).collect();
            let word = if self.wide { word } else { word.replace('文', "w") };
            if i > 0 {
                raw.push_str(*self.r.pick(spaces));
            }
            raw.push_str(&word);
            words.push(json!([word, width_of(&word)]));
        }
        if self.r.chance(1, 6) {
            raw.push_str(*self.r.pick(spaces));
        }
        self.push("com", "", &raw, words, vec![])
    }
}

pub fn make(mode: &str, r: &mut Rng, id: &str) -> Option<Value> {
    let comments = r.chance(2, 3);
    let styles = mode == "X02" && r.chance(1, 2);
    let wide = r.chance(1, 5);
    let most = if r.chance(1, 6) { 40 } else { 14 };
    let size = 2 + r.below(most);
    let depth = 1 + r.below(5);
    let roots = r.chance(1, 3);
    let mut g = Gen { r, v: vec![], comments, styles, wide };
    let root = if roots {
        let n = g.r.below(4);
        let mut ch = vec![];
        for _ in 0..n {
            ch.push(if comments && g.r.chance(1, 3) { g.comment() } else { g.value(size / 2 + 1, depth) });
        }
        g.push("roots", "", "", vec![], ch)
    } else {
        g.value(size, depth)
    };
    let v = g.v;
    let total: usize = v.iter().map(|x| x["w"].as_u64().unwrap() as usize + 3).sum::<usize>().min(80);
    let w = match r.below(10) {
        0 => r.below(4),
        1 => *r.pick(&[100, 1000, 65534, 65535]),
        _ => r.below(total + 4),
    };
    let mut ops = vec![];
    if mode == "X01" {
        ops.push(json!(["str"]));
    } else {
        for _ in 0..2 {
            let mut path: Vec<usize> = vec![];
            let mut at = root;
            while r.chance(3, 4) {
                let x = &v[at - 1];
                let ch = x["ch"].as_array().unwrap();
                let extra = if x["k"] == "pair" { 1 } else { 0 };
                if ch.is_empty() {
                    break;
                }
                let i = r.below(ch.len());
                path.push(i + extra);
                at = ch[i].as_u64().unwrap() as usize;
            }
            let x = &v[at - 1];
            let words = x["words"].as_array().unwrap().len();
            let part = if x["k"] == "pair" && r.chance(1, 3) {
                path.push(0);
                -1
            } else if words > 0 && r.chance(1, 2) {
                let k = r.below(words);
                path.push(k);
                k as i64 + 1
            } else {
                0
            };
            ops.push(json!(["view", path, *r.pick(&["start", "end", "end", "mark", "text", "text"]), at, part, r.below(5)]));
        }
    }
    Some(json!({"id": id, "mode": mode, "W": w, "V": v, "root": root, "rs": if styles && r.chance(1, 3) { json!([r.pick(&COLORS).0, r.chance(1, 2)]) } else { json!([]) }, "ops": ops}))
}

fn build(v: &[Value], i: usize) -> Json {
    let x = &v[i - 1];
    let s = x["s"].as_str().unwrap();
    let ch = || x["ch"].as_array().unwrap().iter().map(|c| build(v, c.as_u64().unwrap() as usize)).collect::<Vec<_>>();
    let mut j = match x["k"].as_str().unwrap() {
        "null" => json_null(),
        "true" => json_bool(true),
        "false" => json_bool(false),
        "str" => json_string(s),
        "num" => json_number(s.parse().unwrap()),
        "arr" => json_array(ch()),
        "obj" => json_object(ch()),
        "pair" => json_object_pair(s, ch().pop().unwrap()),
        "com" => json_comment(x["raw"].as_str().unwrap()),
        _ => json_roots(ch()),
    };
    if x["ns"] != json!(["white", false]) {
        j = j.with_style(style_of(&x["ns"]));
    }
    for o in x["ov"].as_array().unwrap() {
        j = j.with_style_override(label(o[0].as_str().unwrap()), style_of(&json!([o[1], o[2]])));
    }
    j
}

fn segs<'d>(s: &[Segment<'d, &'d Json>]) -> Vec<Value> {
    s.iter().map(|x| json!([enc(x.str), x.width, style_json(&x.style)])).collect()
}

pub fn exec(inp: &Value) -> Option<Value> {
    let v = inp["V"].as_array().unwrap();
    let doc = build(v, inp["root"].as_u64().unwrap() as usize);
    let w = inp["W"].as_u64().unwrap() as u16;
    let rs = if inp["rs"].as_array().unwrap().is_empty() { None } else { Some(style_of(&inp["rs"])) };
    let mut ev = vec![];
    for op in inp["ops"].as_array().unwrap() {
        let res = catch_unwind(AssertUnwindSafe(|| {
            if op[0] == "str" {
                let s = pretty_print_to_string(&doc, w).map_err(|e| format!("{e:?}"))?;
                return Ok::<Value, String>(json!({"e":"str","r":"ok","lines": s.split('\n').collect::<Vec<_>>()}));
            }
            let path: Vec<usize> = op[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let pos = op[5].as_u64().unwrap() as usize;
            let about = json!({"e":"view","path":path,"tgt":op[2],"tn":op[3],"part":op[4],"n":pos});
            let (u, f, d) = match pretty_print(&doc, w, &path, target(op[2].as_str().unwrap(), pos), rs.as_ref()) {
                Ok(x) => x,
                Err(e) => {
                    let mut ev = about;
                    ev["r"] = json!("err");
                    ev["msg"] = json!(format!("{e:?}"));
                    return Ok(ev);
                }
            };
            let mut lines = vec![];
            for l in u {
                lines.push(segs(&l.map_err(|e| format!("{e:?}"))?.segments));
            }
            lines.reverse();
            let foc = lines.len() + 1;
            let mut m = segs(&f.left_segments);
            let cut = m.len();
            m.extend(segs(&f.right_segments));
            lines.push(m);
            for l in d {
                lines.push(segs(&l.map_err(|e| format!("{e:?}"))?.segments));
            }
            let mut ev = about;
            ev["r"] = json!("ok");
            ev["lines"] = json!(lines);
            ev["foc"] = json!(foc);
            ev["cut"] = json!(cut);
            Ok(ev)
        }));
        ev.push(match res {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => json!({"e": "str", "r": "err", "msg": e}),
            Err(p) => json!({"e": "str", "r": "panic", "msg": panic_text(p)}),
        });
    }
    let mut out = inp.clone();
    out.as_object_mut().unwrap().insert("ev".into(), Value::Array(ev));
    Some(out)
}
