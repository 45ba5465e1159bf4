//! C08 C09 C10: evaluates functions and operators on chosen arguments and logs what came out. The
//! log is judged offline by an oracle of another implementation (lib/oracle.py).
use crate::core::*;
use crate::ctxs::*;
use serde_json::json;

const F1: &[&str] = &[
    "sqrt", "ln", "log", "exp", "to_radians", "to_degrees", "sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan", "acsc",
    "asec", "acot", "sinh", "cosh", "tanh", "csch", "sech", "coth", "asinh", "acosh", "atanh", "acsch", "asech", "acoth",
];
const ROUNDING: &[&str] = &["abs", "floor", "ceil", "truncate", "round", "sign"];
const MANY: &[&str] = &["sum", "product", "avg", "max", "min"];

/// One thing to evaluate: function or operator, and its arguments as texts of numbers.
struct Item {
    f: String,
    a: Vec<String>,
}

/// Evaluates the items through variables (and, where the text allows, literals) and logs.
fn log_items(m: &mut Mon, r: &mut Rng, kind: &str, cfg: Cfg, items: Vec<Item>, literal: &dyn Fn(&str) -> bool) {
    let mut vars = vec![];
    let mut texts = vec![];
    for it in &items {
        let mut parts = vec![];
        for a in &it.a {
            // a very long call does not need a variable for every argument
            if literal(a) && (it.a.len() > 8 || r.chance(1, 3)) {
                parts.push(match a.strip_prefix('-') {
                    Some(p) => format!("(-{})", p),
                    None => a.clone(),
                });
            } else {
                let n = format!("v{}", vars.len());
                vars.push((n.clone(), a.clone()));
                parts.push(n);
            }
        }
        let t = match it.f.as_str() {
            "neg" => format!("-({})", parts[0]),
            "!" => format!("({})!", parts[0]),
            "+" | "-" | "*" | "/" | "mod" | "^" => format!("({}) {} ({})", parts[0], it.f, parts[1]),
            "const" => it.a[0].clone(),
            "lit" => it.a[0].clone(),
            f => format!("{}({})", f, parts.join(", ")),
        };
        texts.push(if it.f == "const" { it.a[0].clone() } else { t });
    }
    let refs: Vec<&str> = texts.iter().map(|s| s.as_str()).collect();
    let outs = eval_many(kind, cfg, &vars, &refs);
    for ((it, t), o) in items.iter().zip(&texts).zip(outs) {
        m.evaluations += 1;
        m.distinct(&(kind, &it.f, &it.a));
        m.count(&format!("f_{}", it.f));
        let (res, err) = match &o {
            Out::Ok(s) => (Some(s.clone()), None),
            Out::Err(k, _) => (None, Some(format!("{:?}", k))),
            Out::Panic(p) => (None, Some(format!("PANIC {}", p))),
        };
        let idx = m.index;
        m.log(json!({"i": idx, "k": kind, "f": it.f, "a": it.a, "t": if t.len() < 2000 { t.as_str() } else { "" }, "r": res, "x": err}));
    }
}

fn plain(s: &str) -> bool {
    let b = s.strip_prefix('-').unwrap_or(s);
    !b.is_empty() && b.len() < 200 && b.as_bytes()[0].is_ascii_digit() && b.chars().all(|c| c.is_ascii_digit() || c == '.')
}

/// The k-th number of a list of those a shortcut or a table would be written for: small whole
/// numbers, halves, and powers of two and ten of both signs.
fn usual(k: usize, top2: usize, top10: usize) -> Option<String> {
    let (a, b, c) = (261, 60, 2 * (top2 - 7));
    let sign = |k: usize| if k % 2 == 0 { "" } else { "-" };
    Some(if k < a {
        (k as i64 - 60).to_string()
    } else if k < a + b {
        let h = 2 * (k - a) as i64 - 39;
        format!("{}{}.5", if h < 0 { "-" } else { "" }, h.abs() / 2)
    } else if k < a + b + c {
        let j = k - a - b;
        format!("{}{}", sign(j), 1u128 << (8 + j / 2))
    } else if k < a + b + c + 2 * (top10 - 2) {
        let j = k - a - b - c;
        format!("{}{}", sign(j), 10u128.pow(3 + j as u32 / 2))
    } else if k < a + b + c + 2 * (top10 - 2) + 20 {
        let j = k - a - b - c - 2 * (top10 - 2);
        format!("{}0.{}1", sign(j), "0".repeat(j / 2))
    } else {
        return None;
    })
}

const USUAL: u64 = 500;
/// Whole operands of both signs around zero.
const GRID: i64 = 61;

fn grid(k: u64) -> i64 {
    (k % GRID as u64) as i64 - 20
}

// ---------------------------------------------------------------- C08

fn float_arg(r: &mut Rng, single: bool) -> f64 {
    let s = if r.chance(1, 2) { -1.0 } else { 1.0 };
    let top = if single { 38 } else { 308 };
    let v = match r.below(17) {
        0 => r.below(21) as f64,
        1 => r.below(100_000) as f64 / *r.pick(&[10.0, 100.0, 1000.0]),
        2 => 15.0 * r.below(73) as f64,
        3 | 4 => r.unit(),
        5 => {
            let d = 10f64.powi(-(1 + r.below(16) as i32)) * (1.0 + r.unit());
            if r.chance(1, 2) { 1.0 + d } else { 1.0 - d }
        }
        6 => 10f64.powi(-(1 + r.below(top) as i32)) * (1.0 + 8.0 * r.unit()),
        7 => 10f64.powi(r.below(top) as i32) * (1.0 + 0.7 * r.unit()),
        8 => 2f64.powi(r.range(-60, 70) as i32),
        9 => {
            let v = f64::from_bits(r.next());
            if v.is_finite() { v.abs() } else { 0.5 }
        }
        10 => r.below(40) as f64 + 10f64.powi(-(8 + r.below(7) as i32)) * s,
        11 => 0.0,
        12 => 15.0 * r.below(49) as f64 + 10f64.powi(-(2 + r.below(14) as i32)) * s,
        13 | 14 => r.unit() * *r.pick(&[10.0, 100.0, 1000.0, 720.0]),
        15 => 10f64.powi(-(r.below(13) as i32)) * (1.0 + 8.0 * r.unit()),
        _ => r.below(200) as f64 + 0.5,
    };
    let v = v * s;
    if single {
        let f = v as f32;
        if f.is_finite() { f as f64 } else { 1.5 }
    } else {
        v
    }
}

/// A base near one or minus one and a whole exponent large enough to show the difference.
fn next_to_one(r: &mut Rng, single: bool) -> (f64, f64) {
    let k = 1 + r.below(if single { 7 } else { 14 }) as i32;
    let d = 10f64.powi(-k) * (1.0 + r.unit());
    let mut b = if r.chance(1, 2) { 1.0 + d } else { 1.0 - d };
    if r.chance(1, 3) {
        b = -b;
    }
    let mut e = (10f64.powi(k) * (8.0 * r.unit() - 4.0)).round();
    if r.chance(1, 8) {
        e = *r.pick(&[2147483647.0, 2147483648.0, 2147483649.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967297.0, 9007199254740991.0, 16777217.0]);
    }
    if single {
        ((b as f32) as f64, (e as f32) as f64)
    } else {
        (b, e)
    }
}

fn float_text(v: f64, single: bool) -> String {
    if single {
        format!("{:?}", v as f32)
    } else {
        format!("{:?}", v)
    }
}

pub fn c08(m: &mut Mon) {
    m.cases("functions", 8_000, 120_000, |m, r| {
        let kind = *r.pick(&["f64c", "f64c", "f64u", "f32c", "f32u"]);
        let single = kind.starts_with("f32");
        let arg = |r: &mut Rng| {
            if r.chance(1, 60) {
                return r.pick(&["NaN", "inf", "-inf", "-0.0"]).to_string();
            }
            let v = float_arg(r, single);
            float_text(v, single)
        };
        let mut items = vec![];
        let pick = r.below(F1.len());
        for j in 0..4 {
            let f = F1[(pick + j) % F1.len()];
            items.push(Item { f: f.into(), a: vec![arg(r)] });
        }
        if kind.ends_with('c') {
            items.push(Item { f: r.pick(ROUNDING).to_string(), a: vec![arg(r)] });
        } else {
            items.push(Item { f: "sign".into(), a: vec![arg(r)] });
            items.pop();
        }
        items.push(Item { f: r.pick(&["log", "atan"]).to_string(), a: vec![arg(r), arg(r)] });
        for _ in 0..3 {
            let f = *r.pick(&["+", "-", "*", "/", "mod", "^"]);
            items.push(Item { f: f.into(), a: vec![arg(r), arg(r)] });
        }
        // powers of ordinary size
        let b = float_text(r.unit() * 20.0 - 5.0, single);
        let e = if r.chance(1, 2) { r.range(-12, 30).to_string() } else { float_text(r.unit() * 20.0 - 10.0, single) };
        let b = if r.chance(1, 2) { r.range(-20, 20).to_string() } else { b };
        items.push(Item { f: "^".into(), a: vec![b, e] });
        // a base next to one (or minus one) and an exponent of any size
        let (b, e) = next_to_one(r, single);
        items.push(Item { f: "^".into(), a: vec![float_text(b, single), float_text(e, single)] });
        // 0 to 180
        let x = match r.below(4) {
            0 => r.below(175) as f64,
            1 => r.below(180) as f64 + r.below(100) as f64 / 100.0,
            2 => r.unit() * 3.0,
            _ => float_arg(r, single).abs().min(400.0),
        };
        items.push(Item { f: "!".into(), a: vec![float_text(x, single)] });
        items.push(Item { f: "neg".into(), a: vec![arg(r)] });
        let n = match r.below(12) {
            0 => 250 + r.below(20),
            1 => 30 + r.below(100),
            _ => 1 + r.below(6),
        };
        let f = *r.pick(MANY);
        let n = if f.starts_with('m') { n.max(2) } else { n };
        let tame = r.chance(3, 4);
        let a = (0..n)
            .map(|_| {
                if tame {
                    float_text((r.range(-4000, 4000) as f64) / *r.pick(&[1.0, 7.0, 100.0, 1000.0]), single)
                } else {
                    float_text(float_arg(r, single), single)
                }
            })
            .collect();
        items.push(Item { f: f.into(), a });
        log_items(m, r, kind, Cfg::default(), items, &plain);
    });
    // every function on the usual numbers, one after another
    const KINDS: [&str; 4] = ["f64c", "f32c", "f64u", "f32u"];
    m.cases("usual", USUAL, USUAL, |m, r| {
        let k = m.index & 0xff_ffff_ffff;
        let kind = KINDS[(k / USUAL) as usize % 4];
        let Some(v) = usual((k % USUAL) as usize, 64, 18) else { return };
        let mut fs: Vec<&str> = F1.to_vec();
        fs.extend(["neg", "!"]);
        if kind.ends_with('c') {
            fs.extend(ROUNDING);
        }
        let items = fs.iter().filter(|f| **f != "!" || v.trim_start_matches('-').len() < 6).map(|f| Item { f: f.to_string(), a: vec![v.clone()] }).collect();
        log_items(m, r, kind, Cfg::default(), items, &plain);
        m.count("usual");
    });
    const OPS: [&str; 8] = ["+", "-", "*", "/", "mod", "^", "log", "atan"];
    m.cases("pairs", 8 * GRID as u64, 8 * GRID as u64, |m, r| {
        let k = m.index & 0xff_ffff_ffff;
        let g = GRID as u64;
        let (f, kind) = (OPS[(k / g) as usize % 8], KINDS[(k / g / 8) as usize % 4]);
        let items = (0..g).map(|j| Item { f: f.into(), a: vec![grid(k).to_string(), grid(j).to_string()] }).collect();
        log_items(m, r, kind, Cfg::default(), items, &plain);
        m.count("pairs");
    });
    m.cases("folds", 140, 140, |m, r| {
        let k = m.index & 0xff_ffff_ffff;
        let kind = KINDS[(k / 140) as usize % 4];
        let n = k % 140 + 1;
        let items = MANY
            .iter()
            .map(|f| {
                let n = if f.starts_with('m') { n.max(2) } else { n };
                let a = (0..n).map(|_| if *f == "product" { (1.0 + r.range(-400, 400) as f64 / 1000.0) * if r.chance(1, 9) { -1.0 } else { 1.0 } } else { r.range(-4000, 4000) as f64 / 8.0 });
                Item { f: f.to_string(), a: a.map(|v| float_text(v, kind.starts_with("f32"))).collect() }
            })
            .collect();
        log_items(m, r, kind, Cfg::default(), items, &plain);
        m.count("folds");
    });
    // exact multiples of 15 degrees and the inverses of the values there, every one
    m.cases("angles", 289, 289, |m, r| {
        let d = (m.index & 0xffff) as i64 * 15 - 2160;
        for kind in ["f64c", "f64u", "f32c", "f32u"] {
            let items = ["sin", "cos", "tan", "csc", "sec", "cot", "to_radians"].iter().map(|f| Item { f: f.to_string(), a: vec![d.to_string()] }).collect();
            log_items(m, r, kind, Cfg::default(), items, &plain);
        }
    });
    // numbers of arguments, and the constants
    m.cases("counts", 60, 300, |m, r| {
        for kind in ["f64c", "f64u", "f32c", "f32u"] {
            let mut items = vec![];
            for f in F1.iter().chain(if kind.ends_with('c') { ROUNDING } else { &[] }).chain(MANY) {
                let n = if r.chance(1, 4) { r.below(24) } else { r.below(5) };
                let a = (0..n).map(|_| format!("{:?}", (1 + r.below(99)) as f64 / 100.0)).collect();
                items.push(Item { f: f.to_string(), a });
            }
            for c in ["PI", "E", "pi", "e", "Pi"] {
                items.push(Item { f: "const".into(), a: vec![c.into()] });
            }
            for _ in 0..20 {
                let l = match r.below(4) {
                    0 => format!("{}.{}", r.next() % 1_000_000, r.next()),
                    1 => format!("{}", r.u128()),
                    2 => format!("0.{}{}", "0".repeat(r.below(40)), r.next()),
                    _ => format!("{}.{}", r.below(1000), r.below(100_000)),
                };
                items.push(Item { f: "lit".into(), a: vec![l] });
            }
            log_items(m, r, kind, Cfg::default(), items, &plain);
        }
    });
}

// ---------------------------------------------------------------- C09

/// `mantissa / 10^scale` with at most 96 bits and scale up to 28.
fn dec_text(neg: bool, mantissa: u128, scale: usize) -> String {
    let s = mantissa.to_string();
    let t = if scale == 0 {
        s
    } else if s.len() > scale {
        format!("{}.{}", &s[..s.len() - scale], &s[s.len() - scale..])
    } else {
        format!("0.{}{}", "0".repeat(scale - s.len()), s)
    };
    if neg && mantissa != 0 {
        format!("-{}", t)
    } else {
        t
    }
}

fn dec_arg(r: &mut Rng, size: usize) -> String {
    let neg = r.chance(1, 2);
    let max96 = (1u128 << 96) - 1;
    let pow10 = |k: usize| 10u128.pow(k as u32);
    match if size == 0 { r.below(15) } else { r.below(9) } {
        0 => dec_text(neg, r.below(21) as u128, 0),
        1 | 2 => dec_text(neg, r.below(100_000) as u128, 1 + r.below(4)),
        3 => dec_text(neg, 15 * r.below(73) as u128, 0),
        4 => dec_text(neg, r.u128() % pow10(18), 18),
        5 => {
            let k = 1 + r.below(24);
            let one = pow10(k);
            let d = 1 + r.below(9) as u128;
            dec_text(neg, if r.chance(1, 2) { one + d } else { one - d }, k)
        }
        6 => dec_text(neg, r.u128() % pow10(20), 18),
        7 => dec_text(neg, r.u128() % pow10(12), 9),
        8 => dec_text(neg, 1 + r.below(300) as u128, 0),
        9 => dec_text(neg, 1 + r.below(999) as u128, 8 + r.below(21)),
        10 => {
            let k = r.below(28);
            dec_text(neg, (1 + r.below(9) as u128) * pow10(k), 0)
        }
        11 => dec_text(neg, r.u128() & max96, r.below(29)),
        12 => dec_text(neg, max96 - r.below(3) as u128, *r.pick(&[0, 1, 14, 28])),
        13 => dec_text(neg, pow10(r.below(20)), r.below(20)),
        _ => dec_text(neg, (r.u128() & max96) >> r.below(90), r.below(29)),
    }
}

pub fn c09(m: &mut Mon) {
    // arithmetic
    m.cases("arithmetic", 8_000, 200_000, |m, r| {
        let mut items = vec![];
        for _ in 0..10 {
            let f = *r.pick(&["+", "-", "*", "*", "/", "mod"]);
            items.push(Item { f: f.into(), a: vec![dec_arg(r, 0), dec_arg(r, 0)] });
        }
        // a large dividend and a divisor of many decimals
        let top = (1u128 << 96) - 1;
        let k = 15 + r.below(14);
        let d = 1 + r.u128() % 10u128.pow(1 + r.below(8) as u32);
        let divisor = if r.chance(1, 2) { 10u128.pow(k as u32) + d } else { 10u128.pow(k as u32) - d };
        let a = dec_text(r.chance(1, 2), top - (r.u128() >> (33 + r.below(90))), 0);
        items.push(Item { f: "mod".into(), a: vec![a, dec_text(r.chance(1, 2), divisor, k)] });
        for f in MANY {
            let n = match r.below(14) {
                0 => 250 + r.below(20),
                _ => 1 + r.below(5),
            };
            let n = if f.starts_with('m') { n.max(2) } else { n };
            let a = (0..n).map(|_| if *f == "product" && n > 5 { r.pick(&["1", "0.5", "2", "-1", "1.25"]).to_string() } else { { let s = if r.chance(1, 3) { 0 } else { 1 }; dec_arg(r, s) } }).collect();
            items.push(Item { f: f.to_string(), a });
        }
        for f in ["floor", "ceil", "truncate", "round"] {
            items.push(Item { f: f.into(), a: vec![dec_arg(r, 0)] });
        }
        items.push(Item { f: "neg".into(), a: vec![dec_arg(r, 0)] });
        items.push(Item { f: "!".into(), a: vec![if r.chance(1, 2) { r.below(31).to_string() } else { dec_arg(r, 1) }] });
        let s = r.below(2); let b = dec_arg(r, s);
        let e = if r.chance(2, 3) { r.range(-12, 40).to_string() } else { dec_arg(r, 1) };
        items.push(Item { f: "^".into(), a: vec![b, e] });
        log_items(m, r, "dec", Cfg::default(), items, &plain);
    });
    m.cases("functions", 4_000, 80_000, |m, r| {
        let mut items = vec![];
        let at = r.below(F1.len());
        for j in 0..5 {
            let f = F1[(at + j) % F1.len()];
            let size = if r.chance(1, 4) { 0 } else { 1 };
            items.push(Item { f: f.into(), a: vec![dec_arg(r, size)] });
        }
        items.push(Item { f: "cbrt".into(), a: vec![dec_arg(r, 0)] });
        // the logarithm's series is slowest next to the powers of ten
        let k = r.below(12) as i32 - 6;
        let near = match r.below(4) {
            0 => 1_000_000_000_000 + r.u128() % 200_000_000_000,
            1 => 1_000_000_000_000 - r.u128() % 200_000_000_000,
            2 => 1_000_000_000_000 + r.u128() % 10u128.pow(1 + r.below(10) as u32),
            _ => 1_000_000_000_000 + r.u128() % 9_000_000_000_000,
        };
        items.push(Item { f: r.pick(&["ln", "log"]).to_string(), a: vec![dec_text(false, near, (12 + k) as usize)] });
        let f = *r.pick(&["log", "atan"]);
        items.push(Item { f: f.into(), a: vec![dec_arg(r, 1), dec_arg(r, 1)] });
        log_items(m, r, "dec", Cfg::default(), items, &plain);
    });
    m.cases("usual", USUAL, USUAL, |m, r| {
        let k = m.index & 0xff_ffff_ffff;
        let Some(v) = usual((k % USUAL) as usize, 64, 20) else { return };
        let mut fs: Vec<&str> = F1.to_vec();
        fs.extend(["cbrt", "floor", "ceil", "truncate", "round", "neg", "!"]);
        let items = fs.iter().filter(|f| **f != "!" || v.trim_start_matches('-').len() < 6).map(|f| Item { f: f.to_string(), a: vec![v.clone()] }).collect();
        log_items(m, r, "dec", Cfg::default(), items, &plain);
        m.count("usual");
    });
    const OPS: [&str; 8] = ["+", "-", "*", "/", "mod", "^", "log", "atan"];
    m.cases("pairs", 8 * GRID as u64, 8 * GRID as u64, |m, r| {
        let k = m.index & 0xff_ffff_ffff;
        let g = GRID as u64;
        let f = OPS[(k / g) as usize % 8];
        // whole operands first, then others of one or two decimals
        let t = |r: &mut Rng, v: i64| match (k / g / 8) % 3 {
            0 => v.to_string(),
            _ => {
                let s = 1 + r.below(2);
                dec_text(v < 0, v.unsigned_abs() as u128 * r.below(7) as u128 + r.below(10) as u128, s)
            }
        };
        let items = (0..g).map(|j| { let (x, y) = (t(r, grid(k)), t(r, grid(j))); Item { f: f.into(), a: vec![x, y] } }).collect();
        log_items(m, r, "dec", Cfg::default(), items, &plain);
        m.count("pairs");
    });
    m.cases("folds", 50, 140, |m, r| {
        let k = m.index & 0xff_ffff_ffff;
        let n = k % 140 + 1;
        let items = MANY
            .iter()
            .map(|f| {
                let n = if f.starts_with('m') { n.max(2) } else { n };
                let a = (0..n).map(|_| if *f == "product" { r.pick(&["1", "0.5", "2", "-1", "1.25", "0.8"]).to_string() } else { dec_text(r.chance(1, 2), r.below(400_000) as u128, r.below(4)) });
                Item { f: f.to_string(), a: a.collect() }
            })
            .collect();
        log_items(m, r, "dec", Cfg::default(), items, &plain);
        m.count("folds");
    });
    m.cases("angles", 289, 289, |m, r| {
        let d = (m.index & 0xffff) as i64 * 15 - 2160;
        let items = ["sin", "cos", "tan", "csc", "sec", "cot", "to_radians"].iter().map(|f| Item { f: f.to_string(), a: vec![d.to_string()] }).collect();
        log_items(m, r, "dec", Cfg::default(), items, &plain);
    });
    m.cases("counts", 60, 300, |m, r| {
        let mut items = vec![];
        for f in F1.iter().chain(&["cbrt", "floor", "ceil", "truncate", "round"]).chain(MANY) {
            let n = if r.chance(1, 4) { r.below(24) } else { r.below(5) };
            let a = (0..n).map(|_| dec_text(false, 1 + r.below(99) as u128, 2)).collect();
            items.push(Item { f: f.to_string(), a });
        }
        for c in ["PI", "E", "pi", "e"] {
            items.push(Item { f: "const".into(), a: vec![c.into()] });
        }
        for _ in 0..20 {
            let l = dec_arg(r, 0);
            items.push(Item { f: "lit".into(), a: vec![l.trim_start_matches('-').to_string()] });
        }
        log_items(m, r, "dec", Cfg::default(), items, &plain);
    });
}

// ---------------------------------------------------------------- C10

const FC: &[&str] = &[
    "sqrt", "ln", "log", "exp", "sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan", "acsc", "asec", "acot", "sinh", "cosh",
    "tanh", "csch", "sech", "coth", "asinh", "acosh", "atanh", "acsch", "asech", "acoth",
];

fn cplx_text(re: f64, im: f64) -> String {
    if im == 0.0 && im.is_sign_positive() {
        format!("{}", re)
    } else if im < 0.0 {
        format!("{}-{}i", re, -im)
    } else {
        format!("{}+{}i", re, im)
    }
}

fn cplx_arg(r: &mut Rng, single: bool) -> String {
    let part = |r: &mut Rng| {
        let s = if r.chance(1, 2) { -1.0 } else { 1.0 };
        s * match r.below(8) {
            7 => 10f64.powi(if r.chance(1, 2) { r.below(10) as i32 } else { r.below(if single { 38 } else { 308 }) as i32 }) * (1.0 + 0.7 * r.unit()),
            6 if r.chance(1, 2) => 10f64.powi(-(r.below(if single { 36 } else { 300 }) as i32)) * (1.0 + r.unit()),
            0 => r.below(7) as f64,
            1 => r.below(13) as f64 / 2.0,
            2 | 3 => r.unit() * 2.0,
            4 => r.unit() * 8.0,
            5 => r.below(600) as f64 / 100.0,
            _ => 10f64.powi(-(r.below(4) as i32)) * (1.0 + r.unit()),
        }
    };
    let q = |x: f64| if single { (x as f32) as f64 } else { x };
    // adding zero leaves no negative zero: it would select the other side of the cuts
    let (a, b) = (q(part(r)) + 0.0, q(part(r)) + 0.0);
    let t = |a: f64, b: f64| {
        if single {
            // the shortest text of the single precision parts
            let f = |x: f64| format!("{}", x as f32);
            if b == 0.0 {
                f(a)
            } else if b < 0.0 {
                format!("{}-{}i", f(a), f(-b))
            } else {
                format!("{}+{}i", f(a), f(b))
            }
        } else {
            cplx_text(a, b)
        }
    };
    match r.below(8) {
        0 => t(a, 0.0),
        1 => t(0.0, if b == 0.0 { 1.0 } else { b }),
        _ => t(a, b),
    }
}

pub fn c10(m: &mut Mon) {
    m.cases("functions", 8_000, 120_000, |m, r| {
        let kind = *r.pick(&["cplx", "cplx", "cplx", "cplx32"]);
        let single = kind == "cplx32";
        let arg = |r: &mut Rng| cplx_arg(r, single);
        let mut items = vec![];
        let at = r.below(FC.len());
        for j in 0..7 {
            items.push(Item { f: FC[(at + j) % FC.len()].into(), a: vec![arg(r)] });
        }
        for f in ["+", "-", "*", "/", "^", "^"] {
            items.push(Item { f: f.into(), a: vec![arg(r), arg(r)] });
        }
        items.push(Item { f: "^".into(), a: vec![arg(r), r.range(-6, 9).to_string()] });
        // a modulus next to one and a whole exponent of any size
        let (b, e) = next_to_one(r, single);
        let base = match r.below(3) {
            0 => cplx_text(b, 0.0),
            1 => cplx_text(0.0, b),
            _ => {
                // on the circle, as near as the parts allow
                let t = r.unit() * 6.25;
                let (x, y) = (b * t.cos() + 0.0, b * t.sin() + 0.0);
                if single { cplx_text((x as f32) as f64, (y as f32) as f64) } else { cplx_text(x, y) }
            }
        };
        items.push(Item { f: "^".into(), a: vec![base, cplx_text(e, 0.0)] });
        items.push(Item { f: "neg".into(), a: vec![arg(r)] });
        let base = match r.below(4) {
            0 => 1.5 + r.below(40) as f64 / 4.0,
            1 => (1 + r.below(31)) as f64 / 32.0,
            2 => -((1 + r.below(160)) as f64) / 16.0,
            _ => (1 + r.below(4000)) as f64 / 4.0 * if r.chance(1, 3) { -1.0 } else { 1.0 },
        };
        items.push(Item { f: "log".into(), a: vec![arg(r), cplx_text(base, 0.0)] });
        let f = *r.pick(&["sum", "product", "avg"]);
        let n = if r.chance(1, 16) { 250 + r.below(16) } else { 1 + r.below(5) };
        let a = (0..n).map(|_| if n > 5 && f == "product" { r.pick(&["1", "0+1i", "-1", "0.5+0.5i"]).to_string() } else { arg(r) }).collect();
        items.push(Item { f: f.into(), a });
        log_items(m, r, kind, Cfg { complex: true, ..Default::default() }, items, &|_| false);
    });
    // every function on whole numbers of the axes and the diagonals
    m.cases("usual", 182, 182, |m, r| {
        let k = m.index & 0xff_ffff_ffff;
        let kind = ["cplx", "cplx32"][(k / 364) as usize % 2];
        let v = (k % 91) as i64 - 30;
        let a = match (k / 91) % 4 {
            0 => cplx_text(v as f64, 0.0),
            1 => cplx_text(0.0, if v == 0 { 0.5 } else { v as f64 }),
            2 => cplx_text(v as f64, v as f64),
            _ => cplx_text(v as f64 / 2.0, -v as f64 + 0.0),
        };
        let items = FC.iter().chain(&["neg"]).map(|f| Item { f: f.to_string(), a: vec![a.clone()] }).collect();
        log_items(m, r, kind, Cfg { complex: true, ..Default::default() }, items, &|_| false);
        m.count("usual");
    });
    m.cases("pairs", 270, 270, |m, r| {
        let k = m.index & 0xff_ffff_ffff;
        let kind = ["cplx", "cplx32"][(k / 405) as usize % 2];
        let f = ["+", "-", "*", "/", "^"][(k / 81) as usize % 5];
        let g = |k: u64| cplx_text((k % 9) as f64 - 4.0, (k / 9 % 9) as f64 - 4.0);
        let items = (0..81).map(|j| Item { f: f.into(), a: vec![g(k), g(j)] }).collect();
        log_items(m, r, kind, Cfg { complex: true, ..Default::default() }, items, &|_| false);
        m.count("pairs");
    });
    m.cases("folds", 70, 140, |m, r| {
        let k = m.index & 0xff_ffff_ffff;
        let kind = ["cplx", "cplx32"][(k / 100) as usize % 2];
        let n = k % 100 + 1;
        let items = ["sum", "product", "avg"]
            .iter()
            .map(|f| {
                let a = (0..n).map(|_| if *f == "product" { r.pick(&["1", "0+1i", "-1", "0.5+0.5i", "1+1i"]).to_string() } else { cplx_arg(r, kind == "cplx32") });
                Item { f: f.to_string(), a: a.collect() }
            })
            .collect();
        log_items(m, r, kind, Cfg { complex: true, ..Default::default() }, items, &|_| false);
        m.count("folds");
    });
    // literals with an imaginary suffix
    m.cases("literals", 2_000, 20_000, |m, r| {
        let kind = *r.pick(&["cplx", "cplx32"]);
        let mut items = vec![];
        for _ in 0..6 {
            let n = match r.below(4) {
                0 => r.below(1000).to_string(),
                1 => format!("{}.{}", r.below(100), r.below(1000)),
                2 => format!("0.{}{}", "0".repeat(r.below(6)), 1 + r.below(99)),
                _ => format!("{}", r.next()),
            };
            let gap = *r.pick(&["", "", " "]);
            let l = match r.below(6) {
                0 => format!("{}{}i", n, gap),
                1 => "i".into(),
                2 => n.clone(),
                3 => format!("{} + {}{}i", r.below(50), n, gap),
                4 => format!("{} - {}i", r.below(50), n),
                _ => format!("-{}i", n),
            };
            items.push(Item { f: "lit".into(), a: vec![l] });
        }
        log_items(m, r, kind, Cfg { complex: true, ..Default::default() }, items, &|_| false);
    });
    m.cases("counts", 60, 300, |m, r| {
        for kind in ["cplx", "cplx32"] {
            let mut items = vec![];
            for f in FC.iter().chain(&["sum", "product", "avg"]) {
                let n = if r.chance(1, 4) { r.below(24) } else { r.below(5) };
                let a = (0..n).map(|_| format!("{}", (1 + r.below(99)) as f64 / 128.0)).collect();
                items.push(Item { f: f.to_string(), a });
            }
            for c in ["PI", "E", "i", "pi", "e", "I"] {
                items.push(Item { f: "const".into(), a: vec![c.into()] });
            }
            log_items(m, r, kind, Cfg { complex: true, ..Default::default() }, items, &|_| false);
        }
    });
}
