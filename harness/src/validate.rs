//! Property L06: what validation says of notation terms.
use crate::exec::panic_text;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use partial_pretty_printer::NotationError;
use serde_json::{json, Value};
use std::panic::catch_unwind;

pub fn make(r: &mut Rng, id: &str) -> Option<Value> {
    let mut p = Profile::base();
    p.eol = 3;
    p.mark = 3;
    p.check = 3;
    p.structure = true;
    let terms: Vec<Value> = (0..40)
        .map(|_| {
            let size = 1 + r.below(14);
            let t = match r.below(5) {
                0 | 1 => wild_term(r, &p, size),
                2 => any_term(r, &p, size),
                _ => {
                    let t = any_term(r, &p, size);
                    nudge(r, &p, t)
                }
            };
            t.nest()
        })
        .collect();
    Some(json!({"id": id, "mode": "L06", "terms": terms}))
}

pub fn exec(inp: &Value) -> Option<Value> {
    let ev: Vec<Value> = inp["terms"]
        .as_array()
        .unwrap()
        .iter()
        .map(|v| {
            let n = T::unnest(v).real();
            match catch_unwind(|| n.validate()) {
                Ok(Ok(_)) => json!({"r": "ok", "i": 0}),
                Ok(Err(e)) => {
                    use NotationError::*;
                    let (k, i) = match e {
                        LeftOutsideJoin => ("LeftOutsideJoin", 0),
                        RightOutsideJoin => ("RightOutsideJoin", 0),
                        CheckPosLeftOutsideJoin => ("CheckPosLeftOutsideJoin", 0),
                        CheckPosRightOutsideJoin => ("CheckPosRightOutsideJoin", 0),
                        NestedFold => ("NestedFold", 0),
                        NestedCount => ("NestedCount", 0),
                        CountZeroChild => ("CountZeroChild", 0),
                        CountOneChildIndex(i) => ("CountOneChildIndex", model_index(i)),
                        CountZeroCheckPosChild => ("CountZeroCheckPosChild", 0),
                        CountOneCheckPosChildIndex(i) => ("CountOneCheckPosChildIndex", model_index(i)),
                        TextInsideCount => ("TextInsideCount", 0),
                        TextInsideFold => ("TextInsideFold", 0),
                        TextAfterEol => ("TextAfterEol", 0),
                        MultipleFocusMarks => ("MultipleFocusMarks", 0),
                    };
                    json!({"r": k, "i": i})
                }
                Err(p) => json!({"r": "panic", "i": 0, "msg": panic_text(p)}),
            }
        })
        .collect();
    let mut out = inp.clone();
    out.as_object_mut().unwrap().insert("ev".into(), Value::Array(ev));
    Some(out)
}
