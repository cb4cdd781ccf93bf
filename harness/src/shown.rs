//! What is shown to people: notations, positions, sizes and errors (property X06).
use crate::exec::panic_text;
use crate::rng::Rng;
use crate::terms;
use partial_pretty_printer as ppp;
use ppp::pane::PaneError;
use ppp::{NotationError, Pos, PrintingError, Size};
use serde_json::{json, Value};
use std::error::Error;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone)]
struct Inner(String);
impl fmt::Display for Inner {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Error for Inner {}

const ERRORS: &[&str] = &[
    "InvalidPath", "TextNotationOnTextlessDoc", "ChildIndexOutOfBounds", "ChildNotationOnChildlessDoc", "CheckPosChildIndexOutOfBounds",
    "CheckPosChildOnChildlessDoc", "CountNotationOnChildlessDoc", "NumChildrenChanged", "TextAfterEndOfLine", "MissingFocusMark", "MissingText", "PrettyDoc",
    "LeftOutsideJoin", "RightOutsideJoin", "CheckPosLeftOutsideJoin", "CheckPosRightOutsideJoin", "NestedFold", "NestedCount", "CountZeroChild",
    "CountOneChildIndex", "CountZeroCheckPosChild", "CountOneCheckPosChildIndex", "TextInsideCount", "TextInsideFold", "TextAfterEol", "MultipleFocusMarks",
    "InvalidUseOfDynamic", "PrettyWindowError", "PanePrintingError",
];

fn printing(v: &str, nums: &[i64], inner: &str) -> Option<PrintingError<Inner>> {
    use PrintingError::*;
    Some(match v {
        "InvalidPath" => InvalidPath(nums[0] as usize),
        "TextNotationOnTextlessDoc" => TextNotationOnTextlessDoc,
        "ChildIndexOutOfBounds" => ChildIndexOutOfBounds { index: nums[0] as isize, len: nums[1] as usize },
        "ChildNotationOnChildlessDoc" => ChildNotationOnChildlessDoc,
        "CheckPosChildIndexOutOfBounds" => CheckPosChildIndexOutOfBounds { index: nums[0] as isize, len: nums[1] as usize },
        "CheckPosChildOnChildlessDoc" => CheckPosChildOnChildlessDoc,
        "CountNotationOnChildlessDoc" => CountNotationOnChildlessDoc,
        "NumChildrenChanged" => NumChildrenChanged,
        "TextAfterEndOfLine" => TextAfterEndOfLine,
        "MissingFocusMark" => MissingFocusMark,
        "MissingText" => MissingText,
        "PrettyDoc" => PrettyDoc(Inner(inner.into())),
        _ => return None,
    })
}

fn notation(v: &str, nums: &[i64]) -> Option<NotationError> {
    use NotationError::*;
    Some(match v {
        "LeftOutsideJoin" => LeftOutsideJoin,
        "RightOutsideJoin" => RightOutsideJoin,
        "CheckPosLeftOutsideJoin" => CheckPosLeftOutsideJoin,
        "CheckPosRightOutsideJoin" => CheckPosRightOutsideJoin,
        "NestedFold" => NestedFold,
        "NestedCount" => NestedCount,
        "CountZeroChild" => CountZeroChild,
        "CountOneChildIndex" => CountOneChildIndex(nums[0] as isize),
        "CountZeroCheckPosChild" => CountZeroCheckPosChild,
        "CountOneCheckPosChildIndex" => CountOneCheckPosChildIndex(nums[0] as isize),
        "TextInsideCount" => TextInsideCount,
        "TextInsideFold" => TextInsideFold,
        "TextAfterEol" => TextAfterEol,
        "MultipleFocusMarks" => MultipleFocusMarks,
        _ => return None,
    })
}

/// How many numbers the error carries, and whether the first may be negative.
fn numbers(v: &str) -> &'static [bool] {
    match v {
        "InvalidPath" => &[false],
        "ChildIndexOutOfBounds" | "CheckPosChildIndexOutOfBounds" => &[true, false],
        "CountOneChildIndex" | "CountOneCheckPosChildIndex" => &[true],
        _ => &[],
    }
}

fn number(r: &mut Rng, signed: bool) -> i64 {
    let n = match r.below(6) {
        0 => *r.pick(&[255, 256, 65535, 65536, i32::MAX as i64, u32::MAX as i64, u32::MAX as i64 + 1, i64::MAX]),
        1 => r.range(10, 1000),
        _ => r.range(0, 5),
    };
    match r.below(3) {
        0 if signed && n == i64::MAX => i64::MIN,
        0 | 1 if signed => -n,
        _ => n,
    }
}

pub fn make(r: &mut Rng, id: &str) -> Option<Value> {
    let mut xs = vec![];
    for _ in 0..10 {
        let size = 1 + r.below(14);
        xs.push(json!({"x":"notation","e":terms::expr(r, size, true)}));
    }
    for v in ERRORS {
        let nums: Vec<String> = numbers(v).iter().map(|s| number(r, *s).to_string()).collect();
        let inside = *r.pick(ERRORS);
        let inside_nums: Vec<String> = numbers(inside).iter().map(|s| number(r, *s).to_string()).collect();
        let said = *r.pick(&["broken", "no such file (2)", "a\nb", "中 {}"]);
        xs.push(json!({"x":"err","v":v,"nums":nums,"said":said,"inside":inside,"inside_nums":inside_nums}));
    }
    for _ in 0..10 {
        let n = |r: &mut Rng, m: i64| match r.below(4) {
            0 => r.range(0, m),
            1 => m,
            _ => r.range(0, 3),
        };
        let (rm, cm) = (i32::MAX as i64 / 2, 32767);
        xs.push(json!({"x":"pos","row":n(r, rm),"col":n(r, cm),"row2":n(r, rm),"col2":n(r, cm)}));
    }
    let sym = json!({"empty":"ε","nl":"↵","arrow":"⇒"});
    Some(json!({"id": id, "mode": "X06", "sym": sym, "xs": xs}))
}

fn say<E: Error + ?Sized>(e: &E, copy: String, inner: String) -> Value {
    json!({"r":"ok","msg":e.to_string(),"copy":copy,"inner":inner,"source":e.source().map_or(String::new(), |s| s.to_string())})
}

fn one(x: &Value) -> Value {
    let s = |f: &str| x[f].as_str().unwrap();
    let n = |f: &str| x[f].as_u64().unwrap();
    let nums = |f: &str| -> Vec<i64> { x[f].as_array().unwrap().iter().map(|v| v.as_str().unwrap().parse().unwrap()).collect() };
    match s("x") {
        "notation" => {
            let note = terms::build(&x["e"]);
            let shown = note.to_string();
            let valid = note.validate().map_or("<invalid>".to_owned(), |v| v.to_string());
            json!({"r":"ok","shown":shown,"valid":valid})
        }
        "err" => {
            let (v, ns, said) = (s("v"), nums("nums"), s("said"));
            if let Some(e) = printing(v, &ns, said) {
                let inner = if v == "PrettyDoc" { said.to_owned() } else { String::new() };
                return say(&e, e.clone().to_string(), inner);
            }
            if let Some(e) = notation(v, &ns) {
                return say(&e, e.clone().to_string(), String::new());
            }
            let (e, inner): (PaneError<Inner, Inner>, String) = match v {
                "InvalidUseOfDynamic" => (PaneError::InvalidUseOfDynamic, String::new()),
                "PrettyWindowError" => (PaneError::PrettyWindowError(Inner(said.into())), said.into()),
                _ => {
                    let e = printing(s("inside"), &nums("inside_nums"), said).unwrap_or(PrintingError::MissingText);
                    let m = e.to_string();
                    (PaneError::from(e), m)
                }
            };
            say(&e, e.to_string(), inner)
        }
        _ => {
            let p = Pos { row: n("row") as u32, col: n("col") as u16 };
            let q = Pos { row: n("row2") as u32, col: n("col2") as u16 };
            let size = Size { height: q.row, width: q.col };
            let sum = p + size;
            let cmp = match p.cmp(&q) {
                std::cmp::Ordering::Less => "<",
                std::cmp::Ordering::Equal => "=",
                std::cmp::Ordering::Greater => ">",
            };
            let z = Pos::zero();
            json!({"r":"ok","pos":p.to_string(),"size":size.to_string(),"sum":[sum.row, sum.col],"cmp":cmp,"zero":[z.row, z.col]})
        }
    }
}

pub fn exec(inp: &Value) -> Option<Value> {
    let ev: Vec<Value> = inp["xs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| catch_unwind(AssertUnwindSafe(|| one(x))).unwrap_or_else(|p| json!({"r":"panic","msg":panic_text(p)})))
        .collect();
    let mut out = inp.clone();
    out.as_object_mut().unwrap().insert("ev".into(), Value::Array(ev));
    Some(out)
}
