mod cases;
mod exec;
mod gen;
mod json;
mod model;
mod panes;
mod plain;
mod rng;
mod shown;
mod styles;
mod terms;
mod tree;
mod validate;
mod widths;
use std::io::Write;

/// The specification counts a string's characters in 16-bit units: emoji are written as (private
/// use) characters of 16 bits.
const EMOJI: std::ops::RangeInclusive<u32> = 0x1f600..=0x1f64f;
const SHIFT: u32 = 0x1f600 - 0xe600;
fn unshift(v: &mut serde_json::Value) {
    match v {
        serde_json::Value::String(s) => {
            if s.chars().any(|c| EMOJI.contains(&(c as u32 + SHIFT))) {
                *s = s.chars().map(|c| if EMOJI.contains(&(c as u32 + SHIFT)) { char::from_u32(c as u32 + SHIFT).unwrap() } else { c }).collect();
            }
        }
        serde_json::Value::Array(a) => a.iter_mut().for_each(unshift),
        serde_json::Value::Object(m) => m.values_mut().for_each(unshift),
        _ => (),
    }
}
/// Non-ASCII characters are written as \uXXXX so that the reader's default charset is irrelevant.
pub fn to_line(v: &serde_json::Value) -> String {
    let s = serde_json::to_string(v).unwrap();
    let mut out = String::with_capacity(s.len());
    for c in s.chars() {
        if c.is_ascii() {
            out.push(c);
        } else if EMOJI.contains(&(c as u32)) {
            out.push_str(&format!("\\u{:04x}", c as u32 - SHIFT));
        } else {
            let mut buf = [0u16; 2];
            for u in c.encode_utf16(&mut buf) {
                out.push_str(&format!("\\u{:04x}", u));
            }
        }
    }
    out
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let child = std::thread::Builder::new().stack_size(256 << 20).spawn(move || real_main(a)).unwrap();
    match child.join() {
        Ok(code) => std::process::exit(code),
        Err(_) => {
            eprintln!("harness thread panicked");
            std::process::exit(2)
        }
    }
}

fn make(mode: &str, r: &mut rng::Rng, id: &str) -> Option<serde_json::Value> {
    match mode {
        "L06" => validate::make(r, id),
        "L12" => widths::make(r, id),
        "P01" | "P02" | "P03" | "P04" | "P05" | "P06" | "P07" => panes::make(mode, r, id),
        "P08" => plain::make(r, id),
        "X01" | "X02" => json::make(mode, r, id),
        "X03" => tree::make(r, id),
        "X04" => terms::make(r, id),
        "X06" => shown::make(r, id),
        "X07" => styles::make(r, id),
        "L13P" => panes::make("L13", r, id),
        _ => cases::make(mode, r, id),
    }
}
fn exec(v: &serde_json::Value) -> Option<serde_json::Value> {
    match v["mode"].as_str().unwrap() {
        "L06" => validate::exec(v),
        "L12" => widths::exec(v),
        "P08" => plain::exec(v),
        "X01" | "X02" => json::exec(v),
        "X03" => tree::exec(v),
        "X04" => terms::exec(v),
        "X06" => shown::exec(v),
        "X07" => styles::exec(v),
        _ if v.get("P").is_some() => panes::exec(v),
        _ => cases::exec_case(v),
    }
}

fn real_main(a: Vec<String>) -> i32 {
    match a[1].as_str() {
        // gen MODE COUNT SEED OUT: random cases, run on the real code
        "gen" => {
            let (mode, count, seed, out) = (&a[2], a[3].parse::<usize>().unwrap(), a[4].parse::<u64>().unwrap(), &a[5]);
            let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
            let prog = format!("{out}.progress");
            for k in 0..count {
                let mut r = rng::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
                if let Some(inp) = make(mode, &mut r, &format!("{mode}-{seed}-{k}")) {
                    std::fs::write(&prog, to_line(&inp)).unwrap();
                    if let Some(v) = exec(&inp) {
                        writeln!(f, "{}", to_line(&v)).unwrap();
                    }
                }
            }
            0
        }
        // exec IN OUT: run given cases (one JSON object per line) on the real code
        "exec" => {
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
            let prog = format!("{}.progress", a[3]);
            for line in std::fs::read_to_string(&a[2]).unwrap().lines() {
                if line.trim().is_empty() {
                    continue;
                }
                let mut inp: serde_json::Value = serde_json::from_str(line).unwrap();
                inp.as_object_mut().unwrap().remove("ev");
                unshift(&mut inp);
                std::fs::write(&prog, to_line(&inp)).unwrap();
                if let Some(v) = exec(&inp) {
                    writeln!(f, "{}", to_line(&v)).unwrap();
                }
            }
            0
        }
        _ => {
            eprintln!("unknown command");
            2
        }
    }
}
