//! Cases as plain tables (the form the TLA+ specification reads), and the real library objects
//! built from them: notations, and an instrumented `PrettyDoc`.
use partial_pretty_printer as ppp;
use ppp::{CheckPos, Notation, PrettyDoc, Style, ValidNotation};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};

pub type Note = Notation<String, String>;
pub type VNote = ValidNotation<String, String>;

/// A notation term (own form, independent of the library's enum).
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Empty,
    Nl,
    Eol,
    Mark,
    Text,
    Left,
    Right,
    Lit(String),
    Child(i64),
    Flat(Box<T>),
    Indent(String, String, Box<T>), // string, label ("" = none)
    Style(String, Box<T>),
    Cat(Box<T>, Box<T>),
    Cho(Box<T>, Box<T>),
    Check(String, Pos, Box<T>, Box<T>),
    Count(Box<T>, Box<T>, Box<T>),
    Fold(Box<T>, Box<T>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pos {
    Here,
    Child(i64),
    Left,
    Right,
}
// The specification counts in 32-bit integers; numbers from FAR on stand for real ones beyond those.
pub const FAR: i64 = 900_000_000;
const ABOVE: &[isize] = &[isize::MAX, isize::MAX - 1, 1 << 32, (1 << 32) + 1, 1 << 31, (1 << 31) + 1];
const BELOW: &[isize] = &[isize::MIN, isize::MIN + 1, -(1 << 32), -(1 << 32) - 1, -(1 << 32) - 2, -(1 << 31) - 1];
const POSITIONS: &[usize] = &[usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) + 1, 1 << 63, (1 << 63) + 1];
pub fn real_index(i: i64) -> isize {
    if i >= FAR {
        ABOVE[(i - FAR) as usize]
    } else if i <= -FAR {
        BELOW[(-i - FAR) as usize]
    } else {
        i as isize
    }
}
pub fn model_index(i: isize) -> i64 {
    let at = |t: &[isize]| t.iter().position(|x| *x == i).map(|k| FAR + k as i64);
    at(ABOVE).or(at(BELOW).map(|k| -k)).unwrap_or((i as i64).clamp(-2_000_000_000, 2_000_000_000))
}
pub fn real_pos(i: usize) -> usize {
    if i as i64 >= FAR { POSITIONS[i - FAR as usize] } else { i }
}
pub fn model_pos(i: usize) -> i64 {
    POSITIONS.iter().position(|x| *x == i).map(|k| FAR + k as i64).unwrap_or(i.min(2_000_000_000) as i64)
}
/// An index that few nodes have, or none.
pub fn far_index(r: &mut crate::rng::Rng) -> i64 {
    let i = if r.chance(1, 2) { FAR + r.below(6) as i64 } else { *r.pick(&[127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1_000_000]) };
    if r.chance(1, 2) { -i } else { i }
}
pub fn far_pos(r: &mut crate::rng::Rng) -> usize {
    far_index(r).unsigned_abs() as usize
}
pub fn b(t: T) -> Box<T> {
    Box::new(t)
}

/// Column width of a character of the alphabets used by the generators (checked against the
/// library's own measure, and against the specification's table, by property L05).
pub fn char_w(c: char) -> usize {
    match c {
        '\u{300}'..='\u{36f}' => 0,
        '\u{4e00}'..='\u{9fff}' | '\u{ff01}'..='\u{ff60}' | '\u{3041}'..='\u{30ff}' => 2,
        '\u{ac00}'..='\u{d7a3}' | '\u{231a}' | '\u{3000}' | '\u{1f600}'..='\u{1f64f}' => 2,
        _ => 1,
    }
}
pub fn width_of(s: &str) -> usize {
    // a column is a u16: wider text counts as as wide as that
    (s.chars().map(char_w).sum::<usize>() - s.matches(LAM_ALEF).count()).min(65535)
}
/// Two characters that take one column next to each other.
pub const LAM_ALEF: &str = "\u{644}\u{627}";
/// Long strings of one repeated character are written as "<<c*n>>", so that cases stay small; any
/// other long string (only ever an output) as a summary.
pub fn enc(s: &str) -> String {
    if s.len() <= 3000 {
        return s.to_owned();
    }
    let c = s.chars().next().unwrap();
    if s.chars().all(|x| x == c) {
        return format!("<<{}*{}>>", c, s.chars().count());
    }
    let mut h: u64 = 1469598103934665603;
    for x in s.bytes() {
        h = (h ^ x as u64).wrapping_mul(1099511628211);
    }
    format!("<<#{}#{:x}>>", s.chars().count(), h & 0xffff)
}
/// Whole lines are made of many pieces: they are only summarized if the specification doesn't
/// look at them (in the traces with huge texts).
pub fn enc_line(s: &str) -> String {
    if s.len() <= 40000 { s.to_owned() } else { enc(s) }
}
pub fn dec(s: &str) -> String {
    if let Some(x) = s.strip_prefix("<<").and_then(|x| x.strip_suffix(">>")) {
        let mut it = x.chars();
        let c = it.next().unwrap();
        if it.next() == Some('*') {
            return c.to_string().repeat(it.as_str().parse().unwrap());
        }
    }
    s.to_owned()
}

impl T {
    pub fn real(&self) -> Note {
        let r = |t: &T| Box::new(t.real());
        match self {
            T::Empty => Notation::Empty,
            T::Nl => Notation::Newline,
            T::Eol => Notation::EndOfLine,
            T::Mark => Notation::FocusMark,
            T::Text => Notation::Text,
            T::Left => Notation::Left,
            T::Right => Notation::Right,
            T::Lit(s) => Notation::Literal(s.clone()),
            T::Child(i) => Notation::Child(real_index(*i)),
            T::Flat(a) => Notation::Flat(r(a)),
            T::Indent(s, l, a) => Notation::Indent(
                s.clone(),
                if l.is_empty() { None } else { Some(l.clone()) },
                r(a),
            ),
            T::Style(l, a) => Notation::Style(l.clone(), r(a)),
            T::Cat(a, c) => Notation::Concat(r(a), r(c)),
            T::Cho(a, c) => Notation::Choice(r(a), r(c)),
            T::Check(q, p, a, c) => Notation::Check(q.clone(), p.real(), r(a), r(c)),
            T::Count(a, c, d) => Notation::Count {
                zero: r(a),
                one: r(c),
                many: r(d),
            },
            T::Fold(a, c) => Notation::Fold {
                first: r(a),
                join: r(c),
            },
        }
    }
    /// Append this term to a node table, return its (1-based) index.
    pub fn table(&self, out: &mut Vec<Value>) -> usize {
        let v = match self {
            T::Empty => json!({"k":"empty"}),
            T::Nl => json!({"k":"nl"}),
            T::Eol => json!({"k":"eol"}),
            T::Mark => json!({"k":"mark"}),
            T::Text => json!({"k":"text"}),
            T::Left => json!({"k":"left"}),
            T::Right => json!({"k":"right"}),
            T::Lit(s) => json!({"k":"lit","s":enc(s),"w":width_of(s)}),
            T::Child(i) => json!({"k":"child","i":i}),
            T::Flat(a) => json!({"k":"flat","a":a.table(out)}),
            T::Indent(s, l, a) => {
                json!({"k":"indent","s":enc(s),"w":width_of(s),"l":l,"a":a.table(out)})
            }
            T::Style(l, a) => json!({"k":"style","l":l,"a":a.table(out)}),
            T::Cat(a, c) => json!({"k":"cat","a":a.table(out),"b":c.table(out)}),
            T::Cho(a, c) => json!({"k":"cho","a":a.table(out),"b":c.table(out)}),
            T::Check(q, p, a, c) => {
                let (cp, i) = match p {
                    Pos::Here => ("here", 0),
                    Pos::Child(i) => ("child", *i),
                    Pos::Left => ("left", 0),
                    Pos::Right => ("right", 0),
                };
                json!({"k":"check","q":q,"cp":cp,"i":i,"a":a.table(out),"b":c.table(out)})
            }
            T::Count(a, c, d) => {
                json!({"k":"count","a":a.table(out),"b":c.table(out),"c":d.table(out)})
            }
            T::Fold(a, c) => json!({"k":"fold","a":a.table(out),"b":c.table(out)}),
        };
        out.push(v);
        out.len()
    }
    /// Rebuild a term from a node table.
    pub fn from_table(tab: &[Value], ix: usize) -> T {
        let v = &tab[ix - 1];
        let sub = |f: &str| b(T::from_table(tab, v[f].as_u64().unwrap() as usize));
        let s = |f: &str| dec(v[f].as_str().unwrap_or(""));
        match v["k"].as_str().unwrap() {
            "empty" => T::Empty,
            "nl" => T::Nl,
            "eol" => T::Eol,
            "mark" => T::Mark,
            "text" => T::Text,
            "left" => T::Left,
            "right" => T::Right,
            "lit" => T::Lit(s("s")),
            "child" => T::Child(v["i"].as_i64().unwrap()),
            "flat" => T::Flat(sub("a")),
            "indent" => T::Indent(s("s"), s("l"), sub("a")),
            "style" => T::Style(s("l"), sub("a")),
            "cat" => T::Cat(sub("a"), sub("b")),
            "cho" => T::Cho(sub("a"), sub("b")),
            "check" => {
                let i = v["i"].as_i64().unwrap_or(0);
                let p = match v["cp"].as_str().unwrap() {
                    "here" => Pos::Here,
                    "child" => Pos::Child(i),
                    "left" => Pos::Left,
                    _ => Pos::Right,
                };
                T::Check(s("q"), p, sub("a"), sub("b"))
            }
            "count" => T::Count(sub("a"), sub("b"), sub("c")),
            "fold" => T::Fold(sub("a"), sub("b")),
            k => panic!("unknown notation kind {k}"),
        }
    }
    /// This term as a nested record.
    pub fn nest(&self) -> Value {
        let mut tab = Vec::new();
        let ix = self.table(&mut tab);
        fn go(tab: &[Value], ix: usize) -> Value {
            let mut v = tab[ix - 1].clone();
            for f in ["a", "b", "c"] {
                if let Some(i) = v.get(f).and_then(|x| x.as_u64()) {
                    v[f] = go(tab, i as usize);
                }
            }
            v
        }
        go(&tab, ix)
    }
    pub fn unnest(v: &Value) -> T {
        fn go(v: &Value, tab: &mut Vec<Value>) -> usize {
            let mut x = v.clone();
            for f in ["a", "b", "c"] {
                if v.get(f).is_some() {
                    x[f] = json!(go(&v[f], tab));
                }
            }
            tab.push(x);
            tab.len()
        }
        let mut tab = Vec::new();
        let ix = go(v, &mut tab);
        T::from_table(&tab, ix)
    }
    pub fn size(&self) -> usize {
        1 + match self {
            T::Flat(a) | T::Indent(_, _, a) | T::Style(_, a) => a.size(),
            T::Cat(a, c) | T::Cho(a, c) | T::Check(_, _, a, c) | T::Fold(a, c) => {
                a.size() + c.size()
            }
            T::Count(a, c, d) => a.size() + c.size() + d.size(),
            _ => 0,
        }
    }
}
impl Pos {
    pub fn real(self) -> CheckPos {
        match self {
            Pos::Here => CheckPos::Here,
            Pos::Child(i) => CheckPos::Child(real_index(i)),
            Pos::Left => CheckPos::LeftChild,
            Pos::Right => CheckPos::RightChild,
        }
    }
}

/// One document node: which notation displays it, and its contents.
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub n: usize, // index into Case.notes
    pub text: Option<String>,
    pub ch: Vec<usize>,
    pub conds: Vec<String>,
    pub style: String,
}
#[derive(Clone, Debug)]
pub struct Doc {
    pub notes: Vec<T>,
    pub nodes: Vec<Node>, // root is 0
}
impl Doc {
    pub fn tables(&self) -> (Vec<Value>, Vec<Value>) {
        let mut tab = Vec::new();
        let idx: Vec<usize> = self.notes.iter().map(|t| t.table(&mut tab)).collect();
        let d = self
            .nodes
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let s = x.text.clone().unwrap_or_default();
                let mut node = json!({"n": idx[x.n], "nm": format!("{}", i+1), "t": x.text.is_some(), "s": enc(&s), "w": width_of(&s),
                       "ch": x.ch.iter().map(|c| c+1).collect::<Vec<_>>(), "cs": x.conds, "ns": x.style});
                let n = s.chars().count();
                if n > 0 && n <= 60 {
                    // how wide the text is up to each of its characters
                    node["pw"] = (1..=n).map(|k| json!(width_of(&s.chars().take(k).collect::<String>()).min(width_of(&s)))).collect();
                }
                node
            })
            .collect();
        (tab, d)
    }
    pub fn from_tables(tab: &[Value], d: &[Value]) -> Doc {
        let mut notes = Vec::new();
        let mut roots: Vec<u64> = Vec::new();
        let nodes = d
            .iter()
            .map(|x| {
                let r = x["n"].as_u64().unwrap();
                let n = roots.iter().position(|y| *y == r).unwrap_or_else(|| {
                    roots.push(r);
                    notes.push(T::from_table(tab, r as usize));
                    roots.len() - 1
                });
                Node {
                    n,
                    text: if x["t"].as_bool().unwrap() {
                        Some(dec(x["s"].as_str().unwrap()))
                    } else {
                        None
                    },
                    ch: x["ch"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as usize - 1).collect(),
                    conds: x["cs"].as_array().unwrap().iter().map(|c| c.as_str().unwrap().to_owned()).collect(),
                    style: x["ns"].as_str().unwrap().to_owned(),
                }
            })
            .collect();
        Doc { notes, nodes }
    }
}

thread_local! {
    pub static SMALL_STACK: Cell<bool> = const { Cell::new(false) };
}
/// Free-monoid styles: any omission, duplication or reordering of a combination is visible.
#[derive(Clone, Debug, PartialEq)]
pub struct St(pub String);
impl Style for St {
    fn combine(outer: &St, inner: &St) -> St {
        if SMALL_STACK.get() && outer.0.len() > 1000 {
            // in documents so deep that styles aren't checked
            return St(format!("...{}", inner.0));
        }
        St(format!("{}.{}", outer.0, inner.0))
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Fault(pub u64);
impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "injected fault {}", self.0)
    }
}
impl std::error::Error for Fault {}

pub const RUNAWAY: &str = "runaway: more document calls than any correct printer makes";

/// The environment all handles of a document refer to.
pub struct Env {
    pub doc: Doc,
    pub notes: Vec<VNote>,
    pub calls: Cell<u64>,
    pub limit: Cell<u64>,
    pub fail_at: Cell<u64>,
    pub failed: Cell<bool>,
    pub after_fail: Cell<u64>,
    pub log_on: Cell<bool>,
    pub log: RefCell<Vec<Value>>,
}
impl Env {
    pub fn new(doc: Doc, notes: Vec<VNote>) -> Env {
        Env {
            doc,
            notes,
            calls: Cell::new(0),
            limit: Cell::new(u64::MAX),
            fail_at: Cell::new(u64::MAX),
            failed: Cell::new(false),
            after_fail: Cell::new(0),
            log_on: Cell::new(false),
            log: RefCell::new(Vec::new()),
        }
    }
    fn call(&self, m: &str, d: usize, x: &str, i: usize, p: usize) -> Result<(), Fault> {
        let k = self.calls.get() + 1;
        self.calls.set(k);
        if k > self.limit.get() {
            panic!("{}", RUNAWAY);
        }
        if self.log_on.get() {
            self.log.borrow_mut().push(json!([m, d + 1, x, model_pos(i), p]));
        }
        if self.failed.get() {
            self.after_fail.set(self.after_fail.get() + 1);
        }
        if k == self.fail_at.get() {
            self.failed.set(true);
            return Err(Fault(k));
        }
        Ok(())
    }
}

/// A handle that overrides every method of the trait.
#[derive(Clone, Copy)]
pub struct H<'d> {
    pub e: &'d Env,
    pub i: usize,
}
/// A handle that relies on the trait's default methods.
#[derive(Clone, Copy)]
pub struct H2<'d> {
    pub e: &'d Env,
    pub i: usize,
}
pub trait Mk<'d>:
    PrettyDoc<'d, Id = u32, Style = St, StyleLabel = String, Condition = String, Error = Fault>
{
    fn mk(e: &'d Env, i: usize) -> Self;
}
macro_rules! common {
    ($ty:ident) => {
        type Id = u32;
        type Style = St;
        type StyleLabel = String;
        type Condition = String;
        type Error = Fault;
        fn id(self) -> Result<u32, Fault> {
            self.e.call("id", self.i, "", 0, 0)?;
            Ok(self.i as u32 + 1)
        }
        fn notation(self) -> Result<&'d VNote, Fault> {
            self.e.call("notation", self.i, "", 0, 0)?;
            Ok(&self.e.notes[self.e.doc.nodes[self.i].n])
        }
        fn condition(self, c: &String) -> Result<bool, Fault> {
            self.e.call("condition", self.i, c, 0, 0)?;
            Ok(self.e.doc.nodes[self.i].conds.iter().any(|x| x == c))
        }
        fn lookup_style(self, l: String) -> Result<St, Fault> {
            self.e.call("lookup", self.i, &l, 0, 0)?;
            Ok(St(format!("{}@{}", l, self.i + 1)))
        }
        fn node_style(self) -> Result<St, Fault> {
            self.e.call("node_style", self.i, "", 0, 0)?;
            Ok(St(self.e.doc.nodes[self.i].style.clone()))
        }
        fn num_children(self) -> Result<Option<usize>, Fault> {
            self.e.call("num", self.i, "", 0, 0)?;
            let x = &self.e.doc.nodes[self.i];
            Ok(if x.text.is_some() { None } else { Some(x.ch.len()) })
        }
        fn unwrap_text(self) -> Result<&'d str, Fault> {
            self.e.call("text", self.i, "", 0, 0)?;
            Ok(self.e.doc.nodes[self.i].text.as_ref().expect("unwrap_text of a textless node"))
        }
        fn unwrap_child(self, i: usize) -> Result<Self, Fault> {
            self.e.call("child", self.i, "", i, 0)?;
            Ok($ty { e: self.e, i: self.e.doc.nodes[self.i].ch[i] })
        }
    };
}
impl<'d> PrettyDoc<'d> for H<'d> {
    common!(H);
    fn unwrap_last_child(self) -> Result<Self, Fault> {
        self.e.call("last", self.i, "", 0, 0)?;
        Ok(H { e: self.e, i: *self.e.doc.nodes[self.i].ch.last().expect("unwrap_last_child of a childless node") })
    }
    fn unwrap_prev_sibling(self, parent: Self, i: usize) -> Result<Self, Fault> {
        self.e.call("prev", self.i, "", i, parent.i + 1)?;
        // relies on the documented promise that self is the (i+1)'th child: steps back from self
        let ch = &self.e.doc.nodes[parent.i].ch;
        let me = ch.iter().position(|c| *c == self.i).expect("unwrap_prev_sibling: wrong parent");
        Ok(H { e: self.e, i: ch[me.checked_sub(1).expect("unwrap_prev_sibling of a first child")] })
    }
}
impl<'d> PrettyDoc<'d> for H2<'d> {
    common!(H2);
}
impl<'d> Mk<'d> for H<'d> {
    fn mk(e: &'d Env, i: usize) -> Self {
        H { e, i }
    }
}
impl<'d> Mk<'d> for H2<'d> {
    fn mk(e: &'d Env, i: usize) -> Self {
        H2 { e, i }
    }
}
