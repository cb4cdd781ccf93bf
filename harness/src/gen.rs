//! Random documents and notations.
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Profile {
    pub eol: usize,      // weight of end-of-line markers
    pub style: usize,    // weight of style regions and styled indents
    pub mark: usize,
    pub cho: usize,
    pub flat: usize,
    pub check: usize,
    pub indent: usize,
    pub nl: usize,
    pub max_nodes: usize,
    pub max_term: usize,
    pub max_text: usize,
    pub zero_w: bool,    // zero-width characters allowed
    pub wide: bool,      // full-width characters allowed
    pub mismatch: bool,  // notations need not match their nodes
    pub templates: usize, // out of 10: how often a branch notation is a realistic list notation
    pub obey: bool,      // choices obey the documented rule
    pub structure: bool, // favour count/fold/check
    pub eolkids: bool,   // end-of-line markers between children that may or may not begin a new line
    pub join: bool,      // texts that begin or end with half of a cluster
    pub long: bool,      // very many small texts, one very long text, or very deep nesting
}
impl Profile {
    pub fn base() -> Profile {
        Profile {
            eol: 1, style: 1, mark: 1, cho: 4, flat: 1, check: 1, indent: 2, nl: 3, max_nodes: 14, max_term: 12,
            max_text: 6, zero_w: true, wide: true, mismatch: false, templates: 5, obey: false, structure: false, eolkids: false, join: false, long: false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cnt { No, Zero, One, Many }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fld { No, First, Join }
#[derive(Clone, Copy, Debug)]
struct Ctx { text: bool, n: usize, cnt: Cnt, fld: Fld }

const NARROW: &[char] = &['a','b','c','d','e','f','g','h','k','m','x','y','z','0','1','2','7','(',')',';','"','\\','é','λ',' ','—','ﾊ'];
pub const WIDE: &[char] = &['中','文','字','Ａ','か','가','⌚','\u{3000}','😀','😴'];

pub fn rand_str(r: &mut Rng, p: &Profile, max: usize) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        if p.wide && r.chance(1, 12) {
            s.push(*r.pick(WIDE));
        } else if p.zero_w && r.chance(1, 30) {
            s.push('\u{301}');
        } else if p.zero_w && r.chance(1, 50) {
            s.push_str(LAM_ALEF);
        } else {
            s.push(*r.pick(NARROW));
        }
    }
    if p.join {
        // with the text before or after it, this makes a cluster that's narrower than its parts
        if r.chance(1, 6) {
            s.insert(0, '\u{627}');
        }
        if r.chance(1, 6) {
            s.push('\u{644}');
        }
    }
    s
}
pub const LABELS: &[&str] = &["A", "B", "C"];
pub const CONDS: &[&str] = &["p", "q"];

fn lit(r: &mut Rng, p: &Profile) -> T {
    T::Lit(match r.below(90) { 0..=5 => String::new(), 6 if p.max_text <= 20 => { let n = 10 + r.below(40); rand_str(r, p, n) } _ => rand_str(r, p, p.max_text) })
}
fn indent_str(r: &mut Rng, p: &Profile) -> String {
    match r.below(6) {
        0 => "  ".into(),
        1 => " ".into(),
        2 => "// ".into(),
        3 => "    ".into(),
        4 => "".into(),
        _ => rand_str(r, p, 3),
    }
}
fn lbl(r: &mut Rng) -> String { r.pick(LABELS).to_string() }

fn leaf(r: &mut Rng, p: &Profile, c: Ctx) -> T {
    let can_child = !c.text && c.n > 0 && c.cnt != Cnt::Zero;
    let join = c.fld == Fld::Join;
    let can_text = c.text && c.cnt == Cnt::No && c.fld == Fld::No;
    match r.weighted(&[
        1,
        p.nl,
        p.eol,
        5,
        if can_text { 5 } else { 0 },
        if can_child { 8 } else { 0 },
        if join { 8 } else { 0 },
        if join { 8 } else { 0 },
        p.mark,
    ]) {
        0 => T::Empty,
        1 => T::Nl,
        2 => T::Eol,
        3 => lit(r, p),
        4 => T::Text,
        5 => {
            let n = if c.cnt == Cnt::One { 1 } else { c.n } as i64;
            T::Child(if p.mismatch && r.chance(1, 15) { far_index(r) } else { r.range(-n, n - 1) })
        }
        6 => T::Left,
        7 => T::Right,
        _ => T::Mark,
    }
}

fn term(r: &mut Rng, p: &Profile, c: Ctx, size: usize) -> T {
    if size <= 1 {
        return leaf(r, p, c);
    }
    let split = |r: &mut Rng, n: usize| {
        let a = 1 + r.below(n.max(2) - 1);
        (a, (n - a.min(n)).max(1))
    };
    let lists = !c.text;
    let k = r.weighted(&[
        12,
        p.cho,
        p.flat,
        p.indent,
        p.style,
        p.check,
        if lists && c.cnt == Cnt::No { if p.structure { 4 } else { 1 } } else { 0 },
        if lists && c.fld == Fld::No { if p.structure { 5 } else { 1 } } else { 0 },
    ]);
    match k {
        0 => {
            let (x, y) = split(r, size - 1);
            T::Cat(b(term(r, p, c, x)), b(term(r, p, c, y)))
        }
        1 => {
            if p.obey {
                // x | y with y's first line no wider than x's: y is x with newlines added
                let (x, _) = split(r, size - 1);
                let t = term(r, p, c, x);
                let y = break_up(r, &t);
                T::Cho(b(flat_only(&t)), b(y))
            } else {
                let (x, y) = split(r, size - 1);
                T::Cho(b(term(r, p, c, x)), b(term(r, p, c, y)))
            }
        }
        2 => T::Flat(b(term(r, p, c, size - 1))),
        3 => {
            let l = if p.style > 1 && r.chance(1, 2) { lbl(r) } else { String::new() };
            T::Indent(indent_str(r, p), l, b(term(r, p, c, size - 1)))
        }
        4 => T::Style(lbl(r), b(term(r, p, c, size - 1))),
        5 => {
            let (x, y) = split(r, size - 1);
            let pos = if c.fld == Fld::Join && r.chance(2, 3) {
                *r.pick(&[Pos::Left, Pos::Right])
            } else if !c.text && c.n > 0 && c.cnt != Cnt::Zero && r.chance(1, 2) {
                let n = if c.cnt == Cnt::One { 1 } else { c.n } as i64;
                Pos::Child(if p.mismatch && r.chance(1, 10) { far_index(r) } else { r.range(-n, n - 1) })
            } else {
                Pos::Here
            };
            T::Check(r.pick(CONDS).to_string(), pos, b(term(r, p, c, x)), b(term(r, p, c, y)))
        }
        6 => {
            let (x, y) = split(r, size - 1);
            let many_n = c.n.max(2);
            let _ = many_n;
            T::Count(
                b(term(r, p, Ctx { cnt: Cnt::Zero, ..c }, 1 + x / 4)),
                b(term(r, p, Ctx { cnt: Cnt::One, n: 1, ..c }, 1 + x / 2)),
                b(term(r, p, Ctx { cnt: Cnt::Many, n: 2, ..c }, y + x / 4)),
            )
        }
        _ => {
            let (x, y) = split(r, size - 1);
            let n1 = c.n.max(1);
            T::Fold(
                b(term(r, p, Ctx { fld: Fld::First, n: n1, ..c }, x)),
                b(if r.chance(3, 4) {
                    let mid = term(r, p, Ctx { fld: Fld::Join, n: n1, ..c }, 1 + y / 2);
                    T::Cat(b(T::Cat(b(T::Left), b(mid))), b(T::Right))
                } else {
                    term(r, p, Ctx { fld: Fld::Join, n: n1, ..c }, y + 1)
                }),
            )
        }
    }
}

/// `t` with some newlines inserted before pieces of it (so its first line gets no longer).
fn break_up(r: &mut Rng, t: &T) -> T {
    match t {
        T::Cat(x, y) => {
            if r.chance(1, 2) {
                T::Cat(b(T::Cat(b(break_up(r, x)), b(T::Nl))), b(break_up(r, y)))
            } else {
                T::Cat(b(break_up(r, x)), b(break_up(r, y)))
            }
        }
        T::Lit(_) | T::Text | T::Child(_) if r.chance(1, 2) => T::Cat(b(T::Nl), b(t.clone())),
        _ => t.clone(),
    }
}
/// Wrap so that no newline can occur (first option of a rule-obeying choice).
fn flat_only(t: &T) -> T {
    T::Flat(b(strip_nl(t)))
}
fn strip_nl(t: &T) -> T {
    let s = |x: &T| b(strip_nl(x));
    match t {
        T::Nl => T::Empty,
        T::Flat(a) => T::Flat(s(a)),
        T::Indent(x, l, a) => T::Indent(x.clone(), l.clone(), s(a)),
        T::Style(l, a) => T::Style(l.clone(), s(a)),
        T::Cat(a, c) => T::Cat(s(a), s(c)),
        T::Cho(a, c) => T::Cho(s(a), s(c)),
        T::Check(q, p, a, c) => T::Check(q.clone(), *p, s(a), s(c)),
        T::Count(a, c, d) => T::Count(s(a), s(c), s(d)),
        T::Fold(a, c) => T::Fold(s(a), s(c)),
        x => x.clone(),
    }
}

// ---- own validity check (mirrors the documented rules; the property of validation itself is
// ---- decided against the TLA+ module Validate, not against this)
#[derive(Clone, Copy)]
struct Hist { eol: bool, mark: bool }
fn valid_rec(t: &T, h: Hist, cnt: Cnt, fld: Fld) -> Option<Hist> {
    let or = |a: Hist, c: Hist| Hist { eol: a.eol || c.eol, mark: a.mark && c.mark };
    let one_ok = |i: i64| i == 0 || i == -1;
    Some(match t {
        T::Empty => h,
        T::Text if cnt != Cnt::No || fld != Fld::No => return None,
        T::Text | T::Lit(_) => {
            if h.eol { return None; }
            h
        }
        T::Nl => Hist { eol: false, ..h },
        T::Eol => Hist { eol: true, ..h },
        T::Flat(a) | T::Indent(_, _, a) | T::Style(_, a) => valid_rec(a, h, cnt, fld)?,
        T::Cat(a, c) => { let h = valid_rec(a, h, cnt, fld)?; valid_rec(c, h, cnt, fld)? }
        T::Cho(a, c) => or(valid_rec(a, h, cnt, fld)?, valid_rec(c, h, cnt, fld)?),
        T::Check(_, p, a, c) => {
            match p {
                Pos::Child(i) => {
                    if cnt == Cnt::Zero || (cnt == Cnt::One && !one_ok(*i)) { return None; }
                }
                Pos::Left | Pos::Right => if fld != Fld::Join { return None; },
                Pos::Here => (),
            }
            or(valid_rec(a, h, cnt, fld)?, valid_rec(c, h, cnt, fld)?)
        }
        T::Child(i) => {
            if cnt == Cnt::Zero || (cnt == Cnt::One && !one_ok(*i)) { return None; }
            Hist { eol: false, ..h }
        }
        T::Mark => { if h.mark { return None; } Hist { mark: true, ..h } }
        T::Count(a, c, d) => {
            if cnt != Cnt::No { return None; }
            let x = valid_rec(a, h, Cnt::Zero, fld)?;
            let y = valid_rec(c, h, Cnt::One, fld)?;
            let z = valid_rec(d, h, Cnt::Many, fld)?;
            or(or(x, y), z)
        }
        T::Fold(a, c) => {
            if fld != Fld::No { return None; }
            let u = Hist { eol: false, mark: false };
            valid_rec(a, u, cnt, Fld::First)?;
            valid_rec(c, u, cnt, Fld::Join)?;
            u
        }
        T::Left | T::Right => {
            if fld != Fld::Join { return None; }
            Hist { eol: false, mark: false }
        }
    })
}
pub fn valid(t: &T) -> bool {
    valid_rec(t, Hist { eol: false, mark: false }, Cnt::No, Fld::No).is_some()
}

fn cat(xs: Vec<T>) -> T {
    let mut it = xs.into_iter();
    let mut t = it.next().unwrap();
    for x in it { t = T::Cat(b(t), b(x)); }
    t
}
fn l(s: &str) -> T { T::Lit(s.into()) }

/// Realistic list notations (the idioms of the documentation and of the JSON example).
fn template(r: &mut Rng, p: &Profile) -> T {
    let sp = || l(" ");
    let open = if p.style > 0 && r.chance(1, 2) { T::Style(lbl(r), b(l("["))) } else { l("[") };
    let mk = |r: &mut Rng, t: T| if p.mark > 0 && r.chance(1, 3) { T::Cat(b(T::Mark), b(t)) } else { t };
    let sep = if r.chance(1, 2) {
        T::Check("p".into(), *r.pick(&[Pos::Left, Pos::Right, Pos::Here]), b(l(",")), b(T::Empty))
    } else { l(",") };
    let ind = *r.pick(&["  ", "    ", "| ", " "]);
    let il = if p.style > 1 && r.chance(1, 2) { lbl(r) } else { String::new() };
    let t = match r.below(9) {
        0 => {
            // flow wrap
            let f = T::Fold(b(T::Child(0)), b(cat(vec![T::Left, l(","), T::Cho(b(sp()), b(T::Nl)), T::Right])));
            T::Indent(ind.into(), il, b(f))
        }
        1 => T::Fold(b(T::Child(0)), b(cat(vec![T::Left, sep, T::Nl, T::Right]))),
        2 | 3 => {
            // single | multi, as in JSON
            let single = cat(vec![open.clone(), T::Fold(b(T::Flat(b(T::Child(0)))), b(cat(vec![T::Left, l(", "), T::Flat(b(T::Right))]))), l("]")]);
            let seq = T::Fold(b(T::Child(0)), b(cat(vec![T::Left, sep, T::Nl, T::Right])));
            let multi = cat(vec![open, T::Indent(ind.into(), il, b(T::Cat(b(T::Nl), b(seq)))), T::Nl, l("]")]);
            let arr = T::Cho(b(single), b(multi));
            T::Count(b(mk(r, l("[]"))), b(arr.clone()), b(arr))
        }
        4 => {
            // one choice for the whole group, separators flat or broken together
            let single = T::Fold(b(T::Child(0)), b(cat(vec![T::Left, l(" "), T::Right])));
            let multi = T::Fold(b(T::Child(0)), b(cat(vec![T::Left, T::Nl, T::Right])));
            T::Cho(b(T::Flat(b(single))), b(T::Indent(ind.into(), il, b(multi))))
        }
        5 => {
            // comment: every line prefixed, end of line at the end
            let body = T::Fold(b(T::Child(0)), b(cat(vec![T::Left, T::Cho(b(sp()), b(T::Nl)), T::Right])));
            let t = cat(vec![l("// "), T::Indent("// ".into(), il, b(body))]);
            if p.eol > 0 { T::Cat(b(t), b(T::Eol)) } else { t }
        }
        6 => {
            // checks of each child
            T::Fold(
                b(T::Check("q".into(), Pos::Child(0), b(cat(vec![l("<"), T::Child(0), l(">")])), b(T::Child(0)))),
                b(cat(vec![
                    T::Left,
                    T::Check("q".into(), Pos::Left, b(l(";")), b(l(":"))),
                    T::Check("q".into(), Pos::Right, b(T::Nl), b(sp())),
                    T::Right,
                ])),
            )
        }
        7 => {
            // right part before the left part
            T::Fold(b(T::Child(0)), b(cat(vec![T::Right, l("<"), T::Left])))
        }
        _ => {
            let one = cat(vec![l("{"), T::Child(0), l("}")]);
            let many = cat(vec![T::Child(0), T::Cho(b(sp()), b(T::Nl)), T::Child(-1)]);
            T::Count(b(mk(r, l("()"))), b(one), b(many))
        }
    };
    if r.chance(1, 4) { mk(r, t) } else { t }
}

fn gen_note(r: &mut Rng, p: &Profile, text: bool, n: usize) -> T {
    for _ in 0..40 {
        let t = if !text && n == 0 && r.below(10) < p.templates {
            template(r, p)
        } else {
            let lo = 1 + r.below(4);
            let size = lo.max(r.below(p.max_term + 1));
            let t = term(r, p, Ctx { text, n, cnt: Cnt::No, fld: Fld::No }, size);
            if text && r.chance(3, 4) && !has_text(&t) {
                T::Cat(b(t), b(T::Text))
            } else {
                t
            }
        };
        if valid(&t) {
            return t;
        }
    }
    if text { T::Text } else { l("?") }
}
pub fn has_text(t: &T) -> bool {
    match t {
        T::Text => true,
        T::Flat(a) | T::Indent(_, _, a) | T::Style(_, a) => has_text(a),
        T::Cat(a, c) | T::Cho(a, c) | T::Check(_, _, a, c) | T::Fold(a, c) => has_text(a) || has_text(c),
        T::Count(a, c, d) => has_text(a) || has_text(c) || has_text(d),
        _ => false,
    }
}

/// A random valid notation term on its own (no document).
pub fn any_term(r: &mut Rng, p: &Profile, size: usize) -> T {
    let text = r.chance(1, 3);
    let n = r.below(4);
    term(r, p, Ctx { text, n, cnt: Cnt::No, fld: Fld::No }, size)
}

/// How much work displaying a document can be (all options of all choices), capped.
pub fn cost(d: &Doc) -> u64 {
    const CAP: u64 = 1 << 40;
    fn term(t: &T, n: usize, ch: &[u64], fold: Option<(&T, &T, usize)>) -> u64 {
        let at = |i: i64| {
            let j = if i < 0 { i + n as i64 } else { i };
            if j >= 0 && (j as usize) < n { ch[j as usize] } else { 1 }
        };
        let c = 1 + match t {
            T::Child(i) => at(*i),
            T::Flat(a) | T::Indent(_, _, a) | T::Style(_, a) => term(a, n, ch, fold),
            T::Cat(a, c) | T::Cho(a, c) | T::Check(_, _, a, c) => term(a, n, ch, fold) + term(c, n, ch, fold),
            T::Count(a, c, e) => term(if n == 0 { a } else if n == 1 { c } else { e }, n, ch, fold),
            T::Fold(a, c) => match n {
                0 => 0,
                1 => term(a, n, ch, None),
                _ => {
                    // join's own cost, and how often it displays what lies to its left
                    let (own, lefts) = joins(c, n, ch);
                    let mut total = term(a, n, ch, None);
                    for i in 1..n {
                        total = (own + lefts.saturating_mul(total) + rights(c) * ch[i]).min(CAP);
                    }
                    total
                }
            },
            _ => 0,
        };
        c.min(CAP)
    }
    fn joins(t: &T, n: usize, ch: &[u64]) -> (u64, u64) {
        match t {
            T::Left => (1, 1),
            T::Flat(a) | T::Indent(_, _, a) | T::Style(_, a) => joins(a, n, ch),
            T::Cat(a, c) | T::Cho(a, c) | T::Check(_, _, a, c) => {
                let (x, y) = (joins(a, n, ch), joins(c, n, ch));
                (x.0 + y.0, x.1 + y.1)
            }
            T::Count(_, c, e) => joins(if n == 1 { c } else { e }, n, ch),
            x => (term(x, n, ch, None), 0),
        }
    }
    fn rights(t: &T) -> u64 {
        match t {
            T::Right => 1,
            T::Flat(a) | T::Indent(_, _, a) | T::Style(_, a) => rights(a),
            T::Cat(a, c) | T::Cho(a, c) | T::Check(_, _, a, c) => rights(a) + rights(c),
            T::Count(_, c, e) => rights(c) + rights(e),
            _ => 0,
        }
    }
    let mut c = vec![0u64; d.nodes.len()];
    for i in (0..d.nodes.len()).rev() {
        // children have larger indices than their parents
        let ch: Vec<u64> = d.nodes[i].ch.iter().map(|j| c[*j]).collect();
        c[i] = term(&d.notes[d.nodes[i].n], ch.len(), &ch, None).min(CAP);
    }
    c[0]
}

/// Texts that begin a new line, or may.
fn eol_text(r: &mut Rng, p: &Profile) -> T {
    let nl_text = || T::Cat(b(T::Nl), b(T::Text));
    let t = match r.below(5) {
        0 | 1 => T::Cho(b(T::Text), b(nl_text())),
        2 => nl_text(),
        3 => T::Cat(b(T::Cho(b(T::Empty), b(T::Nl))), b(T::Text)),
        _ => T::Cat(b(T::Cho(b(l(" ")), b(T::Nl))), b(T::Cat(b(T::Text), b(T::Eol)))),
    };
    if p.mark > 0 && r.chance(1, 3) { T::Cat(b(T::Mark), b(t)) } else { t }
}
/// Children after end-of-line markers.
fn eol_note(r: &mut Rng, p: &Profile, n: usize) -> T {
    if n == 0 {
        let right = if r.chance(1, 3) { T::Cho(b(T::Right), b(T::Cat(b(T::Nl), b(T::Right)))) } else { T::Right };
        let first = if r.chance(1, 3) { T::Cat(b(T::Cho(b(T::Empty), b(T::Nl))), b(T::Child(0))) } else { T::Child(0) };
        let t = T::Fold(b(first), b(cat(vec![T::Left, T::Eol, right])));
        return match r.below(4) {
            0 => T::Indent("  ".into(), String::new(), b(t)),
            1 => cat(vec![l("a"), T::Eol, T::Mark, t]),
            2 => T::Cho(b(T::Flat(b(t.clone()))), b(t)),
            _ => t,
        };
    }
    let mut xs = vec![];
    if r.chance(1, 2) {
        xs.push(lit(r, p));
    }
    let mut marked = p.mark == 0;
    for i in 0..n {
        let mark = !marked && r.chance(1, 2);
        if mark && r.chance(1, 2) {
            xs.push(T::Mark);
        }
        if r.chance(3, 4) {
            xs.push(T::Eol);
        }
        if mark && !matches!(xs.iter().find(|x| **x == T::Mark), Some(_)) {
            xs.push(T::Mark);
        }
        marked |= mark;
        xs.push(T::Child(i as i64));
    }
    cat(xs)
}
/// Many nodes within each other.
fn deep_doc(r: &mut Rng, p: &Profile) -> Doc {
    let mut notes = vec![T::Text];
    for _ in 0..1 + r.below(3) {
        let i = if r.chance(1, 2) { 0 } else { -1 };
        let c = || T::Child(i);
        let t = match r.below(6) {
            0 => c(),
            1 => T::Indent(" ".into(), if p.style > 0 && r.chance(1, 3) { "A".into() } else { String::new() }, b(T::Cat(b(T::Nl), b(c())))),
            2 => T::Cat(b(c()), b(T::Cho(b(T::Empty), b(T::Nl)))),
            3 => cat(vec![l("("), c(), l(")")]),
            4 => T::Cho(b(T::Flat(b(c()))), b(T::Indent(" ".into(), String::new(), b(c())))),
            _ => T::Fold(b(T::Child(0)), b(cat(vec![T::Left, T::Nl, T::Right]))),
        };
        notes.push(t);
    }
    let k = 20 + r.below(60);
    let mut nodes = vec![];
    for i in 0..k {
        let n = 1 + r.below(notes.len() - 1);
        nodes.push(Node { n, text: None, ch: vec![i + 1], conds: vec![], style: format!("n{}", i + 1) });
    }
    let s = rand_str(r, p, 6);
    nodes.push(Node { n: 0, text: Some(s), ch: vec![], conds: vec![], style: format!("n{}", k + 1) });
    Doc { notes, nodes }
}
/// A text of some hundreds of characters among short ones.
fn long_text(r: &mut Rng, p: &Profile) -> Doc {
    let mut d = one_doc(r, p);
    for _ in 0..10 {
        if cost(&d) <= 300 {
            break;
        }
        d = one_doc(r, p);
    }
    let texts: Vec<usize> = (0..d.nodes.len()).filter(|i| d.nodes[*i].text.is_some()).collect();
    if !texts.is_empty() {
        let i = *r.pick(&texts);
        let n = 100 + r.below(220);
        d.nodes[i].text = Some((0..n).map(|_| if r.chance(1, 20) { *r.pick(WIDE) } else { *r.pick(NARROW) }).collect());
    }
    d
}
fn long_doc(r: &mut Rng, p: &Profile) -> Doc {
    let all = |t: T| T::Fold(b(T::Child(0)), b(t));
    let row = |sep: T| cat(vec![T::Left, sep, T::Right]);
    let more = if r.chance(1, 4) { 240 } else { 100 };
    let k = 60 + r.below(more);
    let list = match r.below(8) {
        6 => {
            // each with what its neighbour, or itself, asks for
            let sep = T::Check("p".into(), *r.pick(&[Pos::Left, Pos::Right]), b(l(",")), b(if r.chance(1, 3) { T::Nl } else { l(";") }));
            all(if r.chance(1, 4) { cat(vec![T::Right, sep, T::Left]) } else { row(sep) })
        }
        5 => {
            // some of them, by index
            let xs = (0..2 + r.below(5))
                .map(|_| {
                    let i = if r.chance(1, 2) { *r.pick(&[126, 127, 128, 254, 255, 256, 257]) } else { r.below(k) as i64 };
                    let i = if r.chance(1, 2) { i } else { -i - 1 };
                    let i = if i >= -(k as i64) && i < k as i64 { i } else { i % k as i64 };
                    T::Cat(b(T::Child(i)), b(if r.chance(1, 3) { T::Nl } else { T::Empty }))
                })
                .collect();
            cat(xs)
        }
        0 => template(r, p),
        1 => T::Cho(b(all(row(T::Empty))), b(all(row(T::Nl)))),
        2 => T::Cho(b(T::Flat(b(all(row(T::Empty))))), b(l("no"))),
        3 => all(row(T::Cho(b(T::Empty), b(T::Nl)))),
        _ => cat(vec![l("<"), T::Cho(b(all(row(l(" ")))), b(all(row(T::Nl)))), l(">")]),
    };
    let list = if valid(&list) { list } else { all(row(T::Empty)) };
    let texts = [T::Text, T::Cat(b(T::Text), b(T::Cho(b(l(" ")), b(T::Nl)))), T::Cho(b(T::Text), b(T::Cat(b(T::Nl), b(T::Text))))];
    let mut notes = vec![list];
    notes.push(if r.chance(1, 2) { T::Text } else { r.pick(&texts).clone() });
    let often = 1 + r.below(12);
    let some = r.chance(1, 2);
    let mut nodes = vec![Node { n: 0, text: None, ch: (1..=k).collect(), conds: vec!["p".into()], style: "n1".into() }];
    for i in 1..=k {
        let s = if r.chance(1, often) { rand_str(r, p, 2) } else { String::new() };
        let conds = if some && r.chance(1, 2) { vec![] } else { vec!["p".into()] };
        nodes.push(Node { n: 1, text: Some(s), ch: vec![], conds, style: format!("n{}", i + 1) });
    }
    Doc { notes, nodes }
}

pub fn gen_doc(r: &mut Rng, p: &Profile) -> Doc {
    if p.long {
        for _ in 0..20 {
            let d = match r.below(4) {
                0 => deep_doc(r, p),
                1 => long_text(r, p),
                _ => long_doc(r, p),
            };
            if cost(&d) <= 6000 {
                return d;
            }
        }
    }
    let mut d = one_doc(r, p);
    for _ in 0..20 {
        if cost(&d) <= 3000 {
            break;
        }
        d = one_doc(r, p);
    }
    d
}
fn one_doc(r: &mut Rng, p: &Profile) -> Doc {
    // notations: some for texts, some for lists (any number of children), some of fixed arity
    let mut notes = Vec::new();
    let (mut texts, mut lists, mut fixed) = (vec![], vec![], vec![]);
    for _ in 0..1 + r.below(2) {
        texts.push(notes.len());
        notes.push(if p.eolkids { eol_text(r, p) } else { gen_note(r, p, true, 0) });
    }
    for _ in 0..1 + r.below(3) {
        lists.push(notes.len());
        notes.push(if p.eolkids && r.chance(1, 2) { eol_note(r, p, 0) } else { gen_note(r, p, false, 0) });
    }
    for _ in 0..r.below(3) {
        let n = 1 + r.below(3);
        fixed.push((notes.len(), n));
        notes.push(if p.eolkids && r.chance(3, 4) { eol_note(r, p, n) } else { gen_note(r, p, false, n) });
    }
    let mut doc = Doc { notes, nodes: vec![] };
    let target = 1 + r.below(p.max_nodes);
    grow(r, p, &mut doc, &texts, &lists, &fixed, target, 0);
    doc
}

fn grow(r: &mut Rng, p: &Profile, doc: &mut Doc, texts: &[usize], lists: &[usize], fixed: &[(usize, usize)], budget: usize, depth: usize) -> usize {
    let me = doc.nodes.len();
    let conds = CONDS.iter().filter(|_| r.chance(1, 2)).map(|s| s.to_string()).collect();
    let style = format!("n{}", me + 1);
    let is_text = if budget <= 1 { r.chance(4, 5) } else if depth == 0 { r.chance(1, 12) } else { r.chance(1, 10) };
    doc.nodes.push(Node { n: 0, text: None, ch: vec![], conds, style });
    if is_text {
        doc.nodes[me].n = *r.pick(texts);
        let mut s = rand_str(r, p, p.max_text);
        if p.zero_w && r.chance(1, 8) {
            s.insert_str(0, LAM_ALEF);
        }
        doc.nodes[me].text = Some(s);
    } else {
        let (n, k) = if !fixed.is_empty() && budget > 1 && r.chance(1, 2) {
            let (n, k) = *r.pick(fixed);
            (n, k + if r.chance(1, 5) { 1 } else { 0 })
        } else {
            let k = if budget > 3 && r.chance(1, 20) {
                6 + r.below(20) // (the budget is for nodes that have no more than a few children)
            } else {
                1 + r.below(5.min(budget))
            };
            (*r.pick(lists), if budget <= 1 { 0 } else { k })
        };
        doc.nodes[me].n = n;
        let mut left = budget.saturating_sub(1);
        let mut ch = Vec::new();
        for j in 0..k {
            let rest = k - j - 1;
            let give = if rest == 0 { left } else { r.below(left.saturating_sub(rest) + 1).max(1) };
            left = left.saturating_sub(give);
            ch.push(grow(r, p, doc, texts, lists, fixed, give.max(1), depth + 1));
        }
        doc.nodes[me].ch = ch;
    }
    if p.mismatch && r.chance(1, 6) {
        doc.nodes[me].n = r.below(doc.notes.len());
    }
    me
}

/// A term that need not be valid in any way: contexts are mixed up.
pub fn wild_term(r: &mut Rng, p: &Profile, size: usize) -> T {
    if size <= 1 {
        return match r.weighted(&[1, p.nl, 1 + p.eol, 4, 3, 4, 2, 2, 1 + p.mark]) {
            0 => T::Empty,
            1 => T::Nl,
            2 => T::Eol,
            3 => T::Lit(if r.chance(1, 8) { String::new() } else { rand_str(r, p, p.max_text) }),
            4 => T::Text,
            5 => T::Child(if r.chance(1, 12) { far_index(r) } else { r.range(-2, 2) }),
            6 => T::Left,
            7 => T::Right,
            _ => T::Mark,
        };
    }
    let x = 1 + r.below((size - 1).max(1));
    let y = (size - 1).saturating_sub(x).max(1);
    match r.weighted(&[10, 3, 1, 1, 1, 2, 2, 2]) {
        0 => T::Cat(b(wild_term(r, p, x)), b(wild_term(r, p, y))),
        1 => T::Cho(b(wild_term(r, p, x)), b(wild_term(r, p, y))),
        2 => T::Flat(b(wild_term(r, p, size - 1))),
        3 => T::Indent(indent_str(r, p), String::new(), b(wild_term(r, p, size - 1))),
        4 => T::Style(lbl(r), b(wild_term(r, p, size - 1))),
        5 => {
            let pos = match r.below(5) {
                0 => Pos::Left,
                1 => Pos::Right,
                2 | 3 => Pos::Child(if r.chance(1, 12) { far_index(r) } else { r.range(-2, 2) }),
                _ => Pos::Here,
            };
            T::Check(r.pick(CONDS).to_string(), pos, b(wild_term(r, p, x)), b(wild_term(r, p, y)))
        }
        6 => {
            let z = 1 + r.below(y);
            T::Count(b(wild_term(r, p, 1 + x / 2)), b(wild_term(r, p, z)), b(wild_term(r, p, y)))
        }
        _ => T::Fold(b(wild_term(r, p, x)), b(wild_term(r, p, y))),
    }
}

/// The term with one place changed: other terms' flaws do not hide those of that place.
pub fn nudge(r: &mut Rng, p: &Profile, mut t: T) -> T {
    fn go(r: &mut Rng, p: &Profile, t: &mut T, k: &mut usize) {
        if *k == 0 {
            *k = usize::MAX;
            let n = 1 + r.below(3);
            let old = std::mem::replace(t, T::Empty);
            let new = wild_term(r, p, n);
            *t = match (old, r.below(6)) {
                (T::Check(c, _, x, y), 0..=3) => {
                    let i = if r.chance(1, 8) { far_index(r) } else { r.range(-3, 3) };
                    T::Check(c, *r.pick(&[Pos::Left, Pos::Right, Pos::Here, Pos::Child(i), Pos::Child(i)]), x, y)
                }
                (T::Child(_), 0..=2) => T::Child(if r.chance(1, 8) { far_index(r) } else { r.range(-3, 3) }),
                (old, 4) => T::Cat(b(new), b(old)),
                (old, 5) => T::Cat(b(old), b(new)),
                _ => new,
            };
            return;
        }
        *k -= 1;
        match t {
            T::Flat(a) | T::Indent(_, _, a) | T::Style(_, a) => go(r, p, a, k),
            T::Cat(a, c) | T::Cho(a, c) | T::Check(_, _, a, c) | T::Fold(a, c) => {
                go(r, p, a, k);
                if *k < 1000 { go(r, p, c, k); }
            }
            T::Count(a, c, e) => {
                go(r, p, a, k);
                if *k < 1000 { go(r, p, c, k); }
                if *k < 1000 { go(r, p, e, k); }
            }
            _ => (),
        }
    }
    let mut k = r.below(t.size());
    go(r, p, &mut t, &mut k);
    t
}

/// A small document (often a single node) with wild notations; most fail validation and are dropped.
pub fn wild_doc(r: &mut Rng, p: &Profile) -> Doc {
    loop {
        let n = if r.chance(1, 3) { 1 } else { 1 + r.below(5) };
        let k = if n == 1 { 1 } else { 1 + r.below(3) };
        let notes: Vec<T> = (0..k).map(|_| { let s = 1 + r.below(8); wild_term(r, p, s) }).collect();
        let mut nodes: Vec<Node> = (0..n)
            .map(|i| Node { n: r.below(k), text: None, ch: vec![], conds: CONDS.iter().filter(|_| r.chance(1, 2)).map(|s| s.to_string()).collect(), style: format!("n{}", i + 1) })
            .collect();
        for i in 1..n {
            let par = r.below(i);
            nodes[par].ch.push(i);
        }
        for x in nodes.iter_mut() {
            if x.ch.is_empty() && r.chance(2, 3) {
                x.text = Some(rand_str(r, p, p.max_text));
            }
        }
        let d = Doc { notes, nodes };
        if cost(&d) <= 3000 {
            return d;
        }
    }
}
