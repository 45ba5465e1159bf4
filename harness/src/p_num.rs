//! Numbers: totality (C01), checked integers (C07), binary logic (C11), wrapper types (C17), checked
//! against unchecked (C25).
use crate::core::*;
use crate::ctxs::*;
use crate::sym::*;
use num_bigint::BigInt;
use num_traits::{FromPrimitive, One, Signed, ToPrimitive, Zero};
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use serde_json::json;

// ---------------------------------------------------------------- C01

const PIECES: &[&str] = &[
    "0", "1", "2", "3", "7", "10", "12.5", "0.5", ".5", "1.", "1.2.3", "99999999999999999999999999999999999999999999", "b101", "b", "3i", "i", "2.5i",
    "127", "128", "-128", "32767", "2147483648", "9223372036854775807", "9223372036854775808", "170141183460469231731687303715884105727",
    "79228162514264337593543950335", "0.0000000000000000000000000001", "1e400", "1e5", "inf", "nan", "NaN", "infinity", "170", "171", "1000",
    "x", "y", "z", "zero", "big", "neg", "foo", "PI", "pi", "E", "e", "true", "max", "random", "sin", "SIN", "log", "ln", "avg", "sum",
    "+", "-", "*", "/", "^", "mod", "!", "~", "&", "|", "and", "or", "xor", "not", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "shl",
    "(", ")", "[", "]", "{", "}", ",", " ", "  ", "\t", "\n", "=", "$", "$result", "_", ".", "..", ";", "'", "\"", "\\", "@", "#", "%",
    "é", "π", "∞", "漢字", "😀", "\u{301}", "\0", "\u{7f}", "\u{a0}", "\u{200b}", "\u{feff}", "Σ", "ß", "İ", "ſ", "K",
];

pub fn soup(r: &mut Rng, kind: &str, names: &[String], max: usize) -> String {
    let n = 1 + r.below(max);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(24) {
            0..=4 if !names.is_empty() => {
                s.push_str(r.pick(names));
                if r.chance(3, 4) {
                    s.push('(');
                }
            }
            5 if kind != "bin" || r.chance(1, 2) => s.push_str(&r.below(1 << 20).to_string()),
            6 => {
                let c = if r.chance(1, 2) { r.below(0x3000) } else { r.below(0x11_0000) };
                if let Some(c) = char::from_u32(c as u32) {
                    s.push(c);
                }
            }
            7..=9 => s.push_str(r.pick(&["+", "-", "*", "/", "^", " ", "(", ")", "!", ","])),
            _ => s.push_str(PIECES[r.below(PIECES.len())]),
        }
        if r.chance(1, 3) {
            s.push(' ');
        }
    }
    s
}

/// Extreme literals of the kind.
fn extreme(r: &mut Rng, kind: &str) -> String {
    let digits = |r: &mut Rng, n: usize| -> String {
        let mut s = String::new();
        for i in 0..n {
            s.push((b'0' + if i == 0 { 1 + r.below(9) } else { r.below(10) } as u8) as char);
        }
        s
    };
    match r.below(12) {
        0 => "0".into(),
        1 => "1".into(),
        2 => {
            let n = 1 + r.below(45);
            digits(r, n)
        }
        3 if !kind.starts_with('i') && kind != "bin" => {
            let (a, b) = (1 + r.below(30), 1 + r.below(30));
            format!("{}.{}", digits(r, a), digits(r, b))
        }
        4 if kind.starts_with('f') || kind.starts_with("cplx") => format!("{}{}", r.range(1, 9), "0".repeat(r.below(330))),
        4 if kind == "dec" => format!("{}{}", r.range(1, 9), "0".repeat(r.below(30))),
        5 if !kind.starts_with('i') && kind != "bin" => format!("0.{}{}", "0".repeat(r.below(40)), r.range(1, 9)),
        6 => {
            let k = r.below(130) as u32;
            let v = BigInt::one() << (k as usize);
            (v + BigInt::from(r.range(-1, 1))).to_string()
        }
        7 => r.pick(&["x", "y", "zero", "big", "neg", "tiny"]).to_string(),
        8 => r.pick(&["170", "171", "34", "35", "27", "28", "66", "67", "90", "180", "270", "360", "45"]).to_string(),
        9 if kind.starts_with("cplx") => format!("{}i", r.below(1000)),
        9 if kind == "bin" => format!("b{:b}", r.u128()),
        _ => r.below(200).to_string(),
    }
}

pub fn wild(r: &mut Rng, kind: &str, names: &[String], depth: usize, out: &mut String) {
    let bin: &[&str] = if kind == "bin" {
        &["&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "and", "or", "xor", "shl", "shr", "eq", "lt"]
    } else {
        &["+", "-", "*", "/", "^", "mod"]
    };
    if depth == 0 || r.chance(1, 8) {
        out.push_str(&extreme(r, kind));
        return;
    }
    match r.below(10) {
        0..=2 if !names.is_empty() => {
            out.push_str(r.pick(names));
            out.push('(');
            for i in 0..r.below(4) {
                if i > 0 {
                    out.push_str(", ");
                }
                wild(r, kind, names, depth - 1, out);
            }
            out.push(')');
        }
        3 => {
            out.push('(');
            wild(r, kind, names, depth - 1, out);
            out.push(')');
            if kind != "bin" && kind != "cplx" && r.chance(1, 2) {
                out.push('!');
            }
        }
        4 => {
            out.push_str(if kind == "bin" { "~" } else { r.pick(&["-", "+"]) });
            out.push('(');
            wild(r, kind, names, depth - 1, out);
            out.push(')');
        }
        _ => {
            out.push('(');
            wild(r, kind, names, depth - 1, out);
            out.push(' ');
            out.push_str(r.pick(bin));
            out.push(' ');
            wild(r, kind, names, depth - 1, out);
            out.push(')');
        }
    }
}

pub fn function_names(kind: &str) -> Vec<String> {
    let l = listing(kind);
    let mut v: Vec<String> = l["functions"].as_array().unwrap().iter().map(|f| f["name"].as_str().unwrap().to_string()).collect();
    v.sort();
    v.dedup();
    v
}

fn c01_vars(kind: &str) -> Vec<(String, String)> {
    let v = |k: &str, v: &str| (k.to_string(), v.to_string());
    match kind {
        "i8" => vec![v("x", "3"), v("y", "-7"), v("zero", "0"), v("big", "127"), v("neg", "-128"), v("tiny", "-1")],
        "i16" => vec![v("x", "3"), v("y", "-7"), v("zero", "0"), v("big", "32767"), v("neg", "-32768"), v("tiny", "-1")],
        "i32" => vec![v("x", "3"), v("y", "-7"), v("zero", "0"), v("big", "2147483647"), v("neg", "-2147483648"), v("tiny", "-1")],
        "i64" | "isize" => {
            vec![v("x", "3"), v("y", "-7"), v("zero", "0"), v("big", "9223372036854775807"), v("neg", "-9223372036854775808"), v("tiny", "-1")]
        }
        "i128" | "bin" => vec![
            v("x", "3"),
            v("y", "-7"),
            v("zero", "0"),
            v("big", "170141183460469231731687303715884105727"),
            v("neg", "-170141183460469231731687303715884105728"),
            v("tiny", "-1"),
        ],
        "dec" => vec![
            v("x", "3"),
            v("y", "-7.25"),
            v("zero", "0"),
            v("big", "79228162514264337593543950335"),
            v("neg", "-79228162514264337593543950335"),
            v("tiny", "0.0000000000000000000000000001"),
        ],
        _ => vec![v("x", "3"), v("y", "-7.25"), v("zero", "0"), v("big", "1e308"), v("neg", "-inf"), v("tiny", "5e-324")],
    }
}

fn c01_report(m: &mut Mon, kind: &str, cfg: Cfg, text: &str, o: &Out) {
    m.evaluations += 1;
    match o {
        Out::Ok(_) => m.count("values"),
        Out::Err(k, _) => m.count(&format!("err_{:?}", k)),
        Out::Panic(p) => {
            let short: String = text.chars().take(300).collect();
            m.violation(
                format!("C01:{}:{}", kind, short),
                json!({"kind": kind, "config": format!("{:?}", cfg), "expression": short, "length": text.len(), "observed": format!("panic: {}", p)}),
            );
        }
    }
}

pub fn c01(m: &mut Mon) {
    let names: std::collections::HashMap<&str, Vec<String>> = KINDS.iter().map(|k| (*k, function_names(k))).collect();
    let cfg_of = |r: &mut Rng, kind: &str| Cfg { implicit: r.chance(1, 2), custom_call: r.chance(1, 4), complex: kind.starts_with("cplx") || r.chance(1, 6) };
    m.cases("soup", 12_000, 300_000, |m, r| {
        let kind = *r.pick(KINDS);
        let cfg = cfg_of(r, kind);
        let texts: Vec<String> = (0..6)
            .map(|_| {
                let n = *r.pick(&[3, 8, 20]);
                soup(r, kind, &names[kind], n)
            })
            .collect();
        let refs: Vec<&str> = texts.iter().map(|s| s.as_str()).collect();
        for (t, o) in texts.iter().zip(eval_many(kind, cfg, &c01_vars(kind), &refs)) {
            if t.chars().count() > 2 {
                m.distinct(&(kind, t));
            }
            m.count("soup");
            c01_report(m, kind, cfg, t, &o);
        }
    });
    m.cases("wild", 20_000, 500_000, |m, r| {
        let kind = *r.pick(KINDS);
        let cfg = cfg_of(r, kind);
        let texts: Vec<String> = (0..6)
            .map(|_| {
                let mut s = String::new();
                let d = 1 + r.below(4);
                wild(r, kind, &names[kind], d, &mut s);
                s
            })
            .collect();
        let refs: Vec<&str> = texts.iter().map(|s| s.as_str()).collect();
        for (t, o) in texts.iter().zip(eval_many(kind, cfg, &c01_vars(kind), &refs)) {
            m.distinct(&(kind, t));
            m.count("wild");
            c01_report(m, kind, cfg, t, &o);
        }
    });
    // every function on extreme arguments and argument counts
    m.cases("functions", 30_000, 600_000, |m, r| {
        let kind = *r.pick(KINDS);
        let cfg = cfg_of(r, kind);
        let texts: Vec<String> = (0..6)
            .map(|_| {
                if names[kind].is_empty() || r.chance(1, 4) {
                    let (a, b) = (extreme(r, kind), extreme(r, kind));
                    let op = if kind == "bin" {
                        *r.pick(&["<<", ">>", "&", "|", "^", "<", "=="])
                    } else {
                        *r.pick(&["+", "-", "*", "/", "^", "mod", "^ -"])
                    };
                    let un = if kind == "bin" { "~" } else { "-" };
                    let post = if kind == "bin" || kind.starts_with("cplx") || r.chance(3, 4) { "" } else { "!" };
                    format!("{}{} {} {}{}", if r.chance(1, 3) { un } else { "" }, a, op, b, post)
                } else {
                    let f = r.pick(&names[kind]).clone();
                    let n = *r.pick(&[0, 1, 1, 1, 2, 2, 3, 5]);
                    let args: Vec<String> = (0..n).map(|_| format!("{}{}", if kind != "bin" && r.chance(1, 3) { "-" } else { "" }, extreme(r, kind))).collect();
                    format!("{}({})", f, args.join(", "))
                }
            })
            .collect();
        let refs: Vec<&str> = texts.iter().map(|s| s.as_str()).collect();
        for (t, o) in texts.iter().zip(eval_many(kind, cfg, &c01_vars(kind), &refs)) {
            m.distinct(&(kind, t));
            m.count("functions");
            c01_report(m, kind, cfg, t, &o);
        }
    });
    // long and deep inputs, on a thread with an ordinary stack
    m.cases("deep", 160, 2_400, |m, r| {
        let kind = *r.pick(KINDS);
        let cfg = cfg_of(r, kind);
        let n = *r.pick(&[200, 2_000, 20_000, 60_000]);
        let one = if kind == "bin" { "b1" } else { "1" };
        let op = if kind == "bin" { *r.pick(&["&", "<<", "=="]) } else { *r.pick(&["+", "*", "^", "mod", "-"]) };
        let pre = if kind == "bin" { "~" } else { "-" };
        let f = if names[kind].is_empty() { "foo".to_string() } else { r.pick(&names[kind]).clone() };
        let text = match r.below(16) {
            0 => format!("{}{}{}", "(".repeat(n), one, ")".repeat(n)),
            1 => "(".repeat(n),
            2 => format!("{}{}", one, ")".repeat(n)),
            3 => format!("{}{}", format!("{} {} ", one, op).repeat(n), one),
            4 => format!("{}{}", format!("{} ", pre).repeat(n), one),
            5 => format!("{}{}", one, "!".repeat(n / 4)),
            6 => format!("{}({}{})", f, format!("{}, ", one).repeat(n), one),
            7 => format!("{}{}{}", format!("{}(", f).repeat(n / 4), one, ")".repeat(n / 4)),
            8 => format!("{}{}", "9".repeat(n), if r.chance(1, 2) { ".5" } else { "" }),
            9 => format!("0.{}1", "0".repeat(n)),
            10 => r.pick(&["a", "é", "_", "漢", " ", ".", ","]).repeat(n),
            11 => format!("b{}", "10".repeat(n)),
            12 => format!("{}{}{}", "([{".repeat(n / 3), one, "}])".repeat(n / 3)),
            13 => format!("{}{}", format!("{} {} (", one, op).repeat(n / 4), one) + &")".repeat(n / 4),
            14 => r.pick(&["+-", "=<", "!!", "<>", "&|^", "@", "~", ".."]).repeat(n / 8),
            _ => format!("{}{}", "2".repeat(1 + r.below(4)), "(2)".repeat(n / 4)),
        };
        let k = kind.to_string();
        let t = text.clone();
        let o = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || eval1(&k, cfg, &[], &t))
            .unwrap()
            .join()
            .unwrap();
        m.count("deep");
        m.distinct(&(kind, text.len(), text.chars().take(50).collect::<String>()));
        c01_report(m, kind, cfg, &text, &o);
    });
    // random operator tables: any sequence of units and any text
    m.cases("tables", 8_000, 150_000, |m, r| {
        let (i, c) = (r.chance(1, 2), r.chance(1, 3));
        let t = Table::random(r, i, c);
        let ev = t.evaluator();
        for _ in 0..6 {
            let text = if r.chance(1, 2) {
                let lex: Vec<Lex> = (0..1 + r.below(14)).map(|_| any_lex(r, &t)).collect();
                join(r, &t, &lex)
            } else {
                soup(r, "sym", &t.names(|_| true).iter().map(|s| s.to_string()).collect::<Vec<_>>(), 12)
            };
            trace_reset(None);
            let o = Out::of(guard(|| ev.eval(&text)));
            trace_take();
            m.count("tables");
            m.distinct(&text);
            c01_report(m, "sym", Cfg { implicit: i, custom_call: c, complex: false }, &text, &o);
        }
    });
    m.sample(|| json!("see the counters: error kinds and values observed"));
}

// ---------------------------------------------------------------- C07

pub const INTS: &[&str] = &["i8", "i16", "i32", "i64", "i128", "isize"];

fn bounds(kind: &str) -> (BigInt, BigInt) {
    let bits = match kind {
        "i8" => 8,
        "i16" => 16,
        "i32" => 32,
        "i64" => 64,
        "isize" => 8 * std::mem::size_of::<isize>(),
        _ => 128,
    };
    let m: BigInt = BigInt::one() << (bits - 1);
    (-m.clone(), m - 1)
}

/// What the reference says about a (sub-)expression.
#[derive(Clone, Debug)]
enum Want {
    Exact(BigInt),
    /// This value, or an error (an intermediate does not fit, and may or may not have been needed).
    Either(BigInt),
    Err,
    /// Not specified.
    Skip,
}

struct IntRef {
    min: BigInt,
    max: BigInt,
    vars: Vec<(String, BigInt)>,
}

impl IntRef {
    fn fits(&self, v: &BigInt) -> bool {
        *v >= self.min && *v <= self.max
    }
    fn seal(&self, v: BigInt, weak: bool) -> Want {
        if !self.fits(&v) {
            Want::Err
        } else if weak {
            Want::Either(v)
        } else {
            Want::Exact(v)
        }
    }
    fn eval(&self, a: &Ast) -> Want {
        let mut weak = false;
        let mut vals = vec![];
        let kids: Vec<&Ast> = match a {
            Ast::Num(s) => {
                return match s.parse::<BigInt>() {
                    Ok(v) => self.seal(v, false),
                    Err(_) => Want::Err,
                }
            }
            Ast::Var(s) => return Want::Exact(self.vars.iter().find(|v| v.0 == *s).unwrap().1.clone()),
            Ast::Const(_) => return Want::Skip,
            Ast::Un(_, _, x) => vec![x],
            Ast::Bin(_, l, r) => vec![l, r],
            Ast::Call(_, xs) => xs.iter().collect(),
        };
        let mut skip = false;
        for k in kids {
            match self.eval(k) {
                Want::Exact(v) => vals.push(v),
                Want::Either(v) => {
                    weak = true;
                    vals.push(v)
                }
                Want::Err => return Want::Err,
                Want::Skip => {
                    skip = true;
                }
            }
        }
        if skip {
            // an error elsewhere still makes the whole an error, so every operand is looked at
            return Want::Skip;
        }
        let name = match a {
            Ast::Un(n, _, _) | Ast::Bin(n, _, _) | Ast::Call(n, _) => lower(n),
            _ => unreachable!(),
        };
        let v = match a {
            Ast::Un(_, false, _) if name == "-" => -vals[0].clone(),
            Ast::Un(_, false, _) => vals[0].clone(),
            Ast::Un(_, true, _) => {
                let n = &vals[0];
                if n.is_negative() || *n > BigInt::from(40) {
                    return Want::Err;
                }
                let mut p = BigInt::one();
                for k in 1..=n.to_u32().unwrap() {
                    p *= k;
                }
                p
            }
            Ast::Bin(..) => {
                let (l, r) = (&vals[0], &vals[1]);
                match name.as_str() {
                    "+" => l + r,
                    "-" => l - r,
                    "*" => l * r,
                    "/" | "mod" if r.is_zero() => return Want::Err,
                    "/" => l / r,
                    "mod" => {
                        if *l == self.min && *r == BigInt::from(-1) {
                            weak = true; // the quotient does not fit
                        }
                        l % r
                    }
                    "^" => {
                        if r.is_negative() {
                            if l.is_zero() {
                                return Want::Err;
                            }
                            return Want::Skip;
                        }
                        let odd = (r % BigInt::from(2)).is_one();
                        if r.is_zero() || l.is_one() {
                            BigInt::one()
                        } else if l.is_zero() {
                            BigInt::zero()
                        } else if *l == BigInt::from(-1) {
                            if odd {
                                BigInt::from(-1)
                            } else {
                                BigInt::one()
                            }
                        } else if *r > BigInt::from(200) {
                            return Want::Err;
                        } else {
                            num_traits::pow(l.clone(), r.to_usize().unwrap())
                        }
                    }
                    _ => unreachable!("{}", name),
                }
            }
            Ast::Call(..) => {
                let one = vals.len() == 1;
                match name.as_str() {
                    _ if vals.is_empty() => return Want::Err,
                    "sum" => {
                        let mut s = BigInt::zero();
                        for v in &vals {
                            s += v;
                            weak |= !self.fits(&s);
                        }
                        s
                    }
                    "product" => {
                        let mut s = BigInt::one();
                        for v in &vals {
                            s *= v;
                            weak |= !self.fits(&s);
                        }
                        s
                    }
                    "avg" => {
                        let mut s = BigInt::zero();
                        for v in &vals {
                            s += v;
                            weak |= !self.fits(&s);
                        }
                        let n = BigInt::from(vals.len());
                        weak |= !self.fits(&n);
                        s / n
                    }
                    "max" | "min" if one => return Want::Skip,
                    "max" => vals.iter().max().unwrap().clone(),
                    "min" => vals.iter().min().unwrap().clone(),
                    _ if !one => return Want::Err,
                    "abs" => vals[0].abs(),
                    "sign" => BigInt::from(if vals[0].is_zero() {
                        0
                    } else if vals[0].is_negative() {
                        -1
                    } else {
                        1
                    }),
                    "floor" | "ceil" | "round" | "truncate" => {
                        if vals[0].abs() > BigInt::from(1i64 << 53) {
                            return Want::Skip;
                        }
                        vals[0].clone()
                    }
                    _ => unreachable!("{}", name),
                }
            }
            _ => unreachable!(),
        };
        self.seal(v, weak)
    }
}

const INT_VARS: &[&str] = &["mn", "mx", "mn1", "mx1", "one", "none", "zero", "half", "root", "p", "q"];

fn int_table() -> Table {
    let mut t = crate::p_real::real_table("i64", false, false);
    let mut ops: Vec<OpSpec> = t.ops.drain(..).filter(|o| o.fix != Fix::Fun).collect();
    for f in ["sum", "product", "avg", "max", "min", "abs", "sign", "floor", "ceil", "round", "truncate"] {
        ops.push(OpSpec { name: f, aliases: vec![], fix: Fix::Fun });
    }
    Table::new(ops, INT_VARS.to_vec(), vec![], false, false)
}

fn int_lit(r: &mut Rng, max: &BigInt, regime: usize) -> String {
    let root = BigInt::from_f64(max.to_f64().unwrap().sqrt()).unwrap();
    match regime {
        0 => r.below(13).to_string(),
        1 => {
            let k = r.below(10) as i64 - 4;
            (root.clone() + k).abs().to_string()
        }
        2 => {
            let m: BigInt = root * BigInt::from(2) + BigInt::one();
            let v: BigInt = big(r) % m;
            v.to_string()
        }
        3 => (big(r) % (max + BigInt::one())).to_string(),
        4 => {
            let k = r.below(max.bits() + 1);
            ((BigInt::one() << k) + BigInt::from(r.range(-1, 1))).abs().to_string()
        }
        5 => (max - BigInt::from(r.below(3))).to_string(),
        6 => (max + BigInt::from(r.below(3))).to_string(),
        _ => r.below(4).to_string(),
    }
}

fn int_leaves(r: &mut Rng, max: &BigInt, regime: usize, a: &mut Ast) {
    match a {
        Ast::Num(_) | Ast::Const(_) | Ast::Var(_) => {
            let g = if r.chance(1, 4) { r.below(8) } else { regime };
            if !matches!(a, Ast::Var(_)) || r.chance(1, 2) {
                *a = Ast::Num(int_lit(r, max, g));
            }
            if let Ast::Num(s) = a {
                if r.chance(1, 200) {
                    *s = format!("{}.5", s);
                } else if r.chance(1, 100) {
                    *s = format!("00{}", s);
                }
            }
        }
        Ast::Un(_, _, x) => int_leaves(r, max, regime, x),
        Ast::Bin(_, l, x) => {
            int_leaves(r, max, regime, l);
            int_leaves(r, max, regime, x);
        }
        Ast::Call(n, xs) => {
            xs.iter_mut().for_each(|x| int_leaves(r, max, regime, x));
            let (lo, hi) = match lower(n).as_str() {
                "sum" | "product" | "avg" => (1, 99),
                "max" | "min" => (2, 99),
                _ => (1, 1),
            };
            if !r.chance(1, 30) {
                while xs.len() < lo {
                    xs.push(Ast::Num(int_lit(r, max, regime)));
                }
                xs.truncate(hi);
            }
        }
    }
}

/// Right operands of `^` are mostly kept small.
fn tame(r: &mut Rng, a: &mut Ast) {
    match a {
        Ast::Un(n, post, x) => {
            if *post && !r.chance(1, 4) {
                if let Ast::Bin(..) | Ast::Call(..) = **x {
                    *n = "-".into();
                    *post = false;
                }
            }
            tame(r, x)
        }
        Ast::Bin(n, l, x) => {
            if n == "^" {
                if let Ast::Un(m, false, _) = &mut **x {
                    if m == "-" {
                        *m = "+".into();
                    }
                }
                if !r.chance(1, 6) {
                    **x = Ast::Num(r.below(10).to_string());
                }
            }
            tame(r, l);
            tame(r, x)
        }
        Ast::Call(_, xs) => xs.iter_mut().for_each(|x| tame(r, x)),
        _ => {}
    }
}

fn c07_judge(m: &mut Mon, kind: &str, t: &Table, ir: &IntRef, items: &[(Ast, String)], vars: &[(String, String)]) {
    let refs: Vec<&str> = items.iter().map(|i| i.1.as_str()).collect();
    let outs = eval_many(kind, Cfg::default(), vars, &refs);
    for ((ast, text), got) in items.iter().zip(outs) {
        let want = ir.eval(ast);
        m.evaluations += 1;
        let ok = match (&want, &got) {
            (Want::Skip, _) => {
                m.count("unspecified");
                true
            }
            (Want::Err, Out::Err(..)) => true,
            (Want::Exact(v), Out::Ok(s)) | (Want::Either(v), Out::Ok(s)) => s.parse::<BigInt>().ok().as_ref() == Some(v),
            (Want::Either(_), Out::Err(..)) => true,
            _ => false,
        };
        match &want {
            Want::Exact(_) => m.count("exact_value"),
            Want::Either(_) => m.count("value_or_error"),
            Want::Err => m.count("must_be_error"),
            Want::Skip => {}
        }
        if !matches!(want, Want::Skip) && ast.size() > 1 {
            m.distinct(&(kind, text));
            m.count(&format!("kind_{}", kind));
            if let Ast::Un(n, _, _) | Ast::Bin(n, _, _) | Ast::Call(n, _) = ast {
                if matches!(want, Want::Exact(_)) {
                    m.count(&format!("value_{}", lower(n)));
                } else {
                    m.count(&format!("error_{}", lower(n)));
                }
            }
        }
        if ok {
            m.sample(|| json!({"kind": kind, "expression": text, "reference": format!("{:?}", want), "observed": got.show()}));
        } else {
            m.violation(
                format!("C07:{}:{}", kind, text),
                json!({"kind": kind, "expression": text, "variables": vars, "expected": format!("{:?}", want), "observed": got.show(), "table": t.ops.len()}),
            );
        }
    }
}

fn int_setup(r: &mut Rng, kind: &str) -> (IntRef, Vec<(String, String)>) {
    let (min, max) = bounds(kind);
    let root = BigInt::from_f64(max.to_f64().unwrap().sqrt()).unwrap();
    let m: BigInt = &max + BigInt::one();
    let p: BigInt = big(r) % &m;
    let q: BigInt = -(big(r) % &m);
    let vals = vec![
        min.clone(),
        max.clone(),
        &min + 1,
        &max - 1,
        BigInt::one(),
        BigInt::from(-1),
        BigInt::zero(),
        &max / 2 + 1,
        root,
        p,
        q,
    ];
    let vars: Vec<(String, BigInt)> = INT_VARS.iter().map(|s| s.to_string()).zip(vals).collect();
    let texts = vars.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
    (IntRef { min, max, vars }, texts)
}

pub fn c07(m: &mut Mon) {
    let t = int_table();
    m.cases("trees", 16_000, 500_000, |m, r| {
        let kind = *r.pick(INTS);
        let (ir, vars) = int_setup(r, kind);
        let items: Vec<(Ast, String)> = (0..8)
            .map(|_| {
                let size = 2 + r.below(9);
                let mut a = gen_ast(r, &t, size);
                let regime = *r.pick(&[0, 0, 0, 1, 2, 4, 3, 5, 7]);
                int_leaves(r, &ir.max, regime, &mut a);
                if r.chance(9, 10) {
                    tame(r, &mut a);
                }
                let (lex, _) = to_lex(r, &t, &a, &Style { redundant: 5, kinds: false, omit_mul: 0 });
                let text = join(r, &t, &lex);
                (a, text)
            })
            .collect();
        c07_judge(m, kind, &t, &ir, &items, &vars);
    });
    // one operation on boundary operands
    m.cases("edges", 16_000, 300_000, |m, r| {
        let kind = *r.pick(INTS);
        let (ir, vars) = int_setup(r, kind);
        let leaf = |r: &mut Rng| {
            if r.chance(1, 2) {
                Ast::Var(r.pick(INT_VARS).to_string())
            } else {
                let g = r.below(7);
                let n = Ast::Num(int_lit(r, &ir.max, g));
                if r.chance(1, 3) {
                    Ast::Un("-".into(), false, Box::new(n))
                } else {
                    n
                }
            }
        };
        let items: Vec<(Ast, String)> = (0..8)
            .map(|_| {
                let a = match r.below(9) {
                    0 => Ast::Un("-".into(), false, Box::new(leaf(r))),
                    1 => Ast::Un("!".into(), true, Box::new(if r.chance(2, 3) { Ast::Num(r.below(40).to_string()) } else { leaf(r) })),
                    2 => {
                        let f = *r.pick(&["sum", "product", "avg", "max", "min"]);
                        let n = *r.pick(&[1, 2, 2, 3, 4, 9, 130]);
                        let small = n > 4 || r.chance(1, 2);
                        let xs = (0..n.max(if f.starts_with('m') { 2 } else { 1 }))
                            .map(|_| if small { Ast::Num(r.below(3).to_string()) } else { leaf(r) })
                            .collect();
                        Ast::Call(f.into(), xs)
                    }
                    3 => Ast::Call(r.pick(&["abs", "sign", "floor", "ceil", "round", "truncate"]).to_string(), vec![leaf(r)]),
                    4 => {
                        let l = if r.chance(1, 2) { leaf(r) } else { Ast::Num(r.below(12).to_string()) };
                        let e = if r.chance(1, 4) { leaf(r) } else { Ast::Num(r.below(130).to_string()) };
                        let l = if r.chance(1, 3) { Ast::Un("-".into(), false, Box::new(l)) } else { l };
                        Ast::Bin("^".into(), Box::new(l), Box::new(e))
                    }
                    _ => Ast::Bin(r.pick(&["+", "-", "*", "/", "mod"]).to_string(), Box::new(leaf(r)), Box::new(leaf(r))),
                };
                let (lex, _) = to_lex(r, &t, &a, &Style { redundant: 0, kinds: false, omit_mul: 0 });
                let text = spaced(&lex);
                (a, text)
            })
            .collect();
        c07_judge(m, kind, &t, &ir, &items, &vars);
    });
    // every operation on the usual numbers, one after another: small whole ones and the powers of
    // two and ten with their neighbours
    m.cases("usual", 420, 4_000, |m, _r| {
        let k = m.index & 0xff_ffff_ffff;
        let kind = INTS[k as usize % INTS.len()];
        let (min, max) = bounds(kind);
        let mut ir = IntRef { min: min.clone(), max: max.clone(), vars: vec![] };
        let k = k / INTS.len() as u64;
        let pow = |b: u32, e: u64| num_traits::pow(BigInt::from(b), e as usize);
        let of = |k: u64| -> BigInt {
            if k < 400 {
                return BigInt::from(k as i64 - 150);
            }
            let k = k - 400;
            let v = if k < 768 { pow(2, 7 + k / 6 % 121) } else { pow(10, 2 + k / 6 % 37) };
            let v = v + BigInt::from(k as i64 % 3 - 1);
            if k / 3 % 2 == 0 { v } else { -v }
        };
        let (mut items, mut vars) = (vec![], vec![]);
        for j in 0..16u64 {
            let (mut x, mut y) = (of((k * 16 + j) % 1_000), of((k * 7 + j * 61) % 400 + 130));
            if x < min || x > max {
                x = BigInt::from(j as i64);
            }
            if y < min || y > max {
                y = BigInt::from(j as i64 - 8);
            }
            let (nx, ny) = (format!("x{}", j), format!("y{}", j));
            ir.vars.push((nx.clone(), x.clone()));
            ir.vars.push((ny.clone(), y.clone()));
            vars.push((nx.clone(), x.to_string()));
            vars.push((ny.clone(), y.to_string()));
            let v = |s: &str| Ast::Var(s.to_string());
            for f in ["abs", "sign", "floor", "ceil", "round", "truncate"] {
                items.push((Ast::Call(f.into(), vec![v(&nx)]), format!("{}({})", f, nx)));
            }
            items.push((Ast::Un("-".into(), false, Box::new(v(&nx))), format!("-{}", nx)));
            items.push((Ast::Un("!".into(), true, Box::new(v(&nx))), format!("{}!", nx)));
            for op in ["+", "-", "*", "/", "mod", "^"] {
                items.push((Ast::Bin(op.into(), Box::new(v(&nx)), Box::new(v(&ny))), format!("{} {} {}", nx, op, ny)));
            }
        }
        c07_judge(m, kind, &t, &ir, &items, &vars);
        m.add("usual", 16);
    });
    // every count of arguments
    m.cases("counts", 10, 100, |m, r| {
        let k = m.index & 0xff_ffff_ffff;
        let n = (k % 150 + 1) as usize;
        for kind in INTS {
            let (ir, vars) = int_setup(r, kind);
            let items: Vec<(Ast, String)> = ["sum", "product", "avg", "max", "min"]
                .iter()
                .map(|f| {
                    let n = if f.starts_with('m') { n.max(2) } else { n };
                    let mut xs: Vec<Ast> = (0..n).map(|_| Ast::Num(if *f == "product" { "1".into() } else { r.below(if *kind == "i8" { 2 } else { 99 }).to_string() })).collect();
                    if *f == "product" {
                        let at = r.below(n);
                        xs[at] = Ast::Num((2 + r.below(60)).to_string());
                    }
                    let a = Ast::Call(f.to_string(), xs);
                    let (lex, _) = to_lex(r, &t, &a, &Style { redundant: 0, kinds: false, omit_mul: 0 });
                    let text = spaced(&lex);
                    (a, text)
                })
                .collect();
            c07_judge(m, kind, &t, &ir, &items, &vars);
        }
        m.count("counts");
    });
    // long argument lists
    m.cases("long", 150, 3_000, |m, r| {
        let kind = *r.pick(INTS);
        let (ir, vars) = int_setup(r, kind);
        let f = *r.pick(&["sum", "product", "avg", "max", "min"]);
        let n = *r.pick(&[100, 127, 128, 129, 254, 255, 256, 257, 258, 300, 512, 1000, 32768, 65535, 65536, 65537, 70000]);
        let n = if r.chance(1, 2) { n } else { 2 + r.below(600) };
        let spread = *r.pick(&[1usize, 2, 3, 9, 100]);
        let mut xs: Vec<Ast> = (0..n)
            .map(|_| {
                if f == "product" {
                    return Ast::Num("1".into());
                }
                let x = Ast::Num(r.below(spread).to_string());
                if r.chance(2, 5) {
                    Ast::Un("-".into(), false, Box::new(x))
                } else {
                    x
                }
            })
            .collect();
        for _ in 0..r.below(3) {
            let k = r.below(n);
            xs[k] = if f == "product" { Ast::Num((2 + r.below(3)).to_string()) } else { Ast::Var(r.pick(INT_VARS).to_string()) };
        }
        let a = Ast::Call(f.into(), xs);
        let (lex, _) = to_lex(r, &t, &a, &Style { redundant: 0, kinds: false, omit_mul: 0 });
        let text = spaced(&lex);
        m.count(&format!("long_{}", f));
        c07_judge(m, kind, &t, &ir, &[(a, text)], &vars);
    });
    // all pairs of 8-bit integers
    let all = if m.args.thorough { 256 * 256 } else { 256 * 256 / 4 };
    let offset = m.args.seed % 4;
    m.cases("i8pairs", all / 16, 256 * 256 / 16, |m, _r| {
        let (ir, _) = { (IntRef { min: bounds("i8").0, max: bounds("i8").1, vars: vec![] }, ()) };
        let k = (m.index & 0xff_ffff_ffff) * 16;
        let mut items = vec![];
        let mut ir = ir;
        let thorough = m.args.thorough;
        let mut vars = vec![];
        for j in 0..16u64 {
            let pair = if thorough { k + j } else { (k + j) * 4 + offset } % 65536;
            let (x, y) = ((pair >> 8) as u8 as i8, pair as u8 as i8);
            let (nx, ny) = (format!("x{}", j), format!("y{}", j));
            ir.vars.push((nx.clone(), BigInt::from(x)));
            ir.vars.push((ny.clone(), BigInt::from(y)));
            vars.push((nx.clone(), x.to_string()));
            vars.push((ny.clone(), y.to_string()));
            let v = |s: &str| Box::new(Ast::Var(s.to_string()));
            for op in ["+", "-", "*", "/", "mod", "^"] {
                items.push((Ast::Bin(op.into(), v(&nx), v(&ny)), format!("{} {} {}", nx, op, ny)));
            }
            for f in ["avg", "max", "min", "sum", "product"] {
                items.push((Ast::Call(f.into(), vec![*v(&nx), *v(&ny)]), format!("{}({}, {})", f, nx, ny)));
            }
        }
        c07_judge(m, "i8", &t, &ir, &items, &vars);
        m.add("i8_pairs", 16);
    });
}

// ---------------------------------------------------------------- C11

fn bin_lit(r: &mut Rng) -> (String, i128) {
    match r.below(7) {
        0 => {
            let n = r.below(200) as i128;
            (n.to_string(), n)
        }
        1 => {
            let n = (r.u128() >> (1 + r.below(127))) as i128;
            (n.to_string(), n)
        }
        2 => {
            let n = (r.u128() >> r.below(128)) as i128;
            (format!("b{:b}", n), n)
        }
        3 => {
            let n = r.below(64) as i128;
            (format!("b{}{:b}", "0".repeat(r.below(5)), n), n)
        }
        4 => {
            let n = *r.pick(&[i128::MAX, i128::MIN, -1, 1, 0, i128::MAX - 1, i128::MIN + 1, 1 << 64, 1 << 63, -1 ^ (1 << 64)]);
            (format!("b{:b}", n), n)
        }
        5 => {
            let k = r.below(128);
            let n = ((1u128 << k).wrapping_sub(r.below(2) as u128)) as i128;
            (format!("b{:b}", n), n)
        }
        _ => {
            let n = i128::MAX - r.below(3) as i128;
            (n.to_string(), n)
        }
    }
}

fn bin_leaves(r: &mut Rng, a: &mut Ast) {
    match a {
        Ast::Num(s) => *s = bin_lit(r).0,
        Ast::Const(_) => *a = Ast::Num(bin_lit(r).0),
        Ast::Un(_, _, x) => bin_leaves(r, x),
        Ast::Bin(n, l, x) => {
            bin_leaves(r, l);
            bin_leaves(r, x);
            if matches!(lower(n).as_str(), "<<" | ">>" | "shl" | "shr") && !r.chance(1, 6) {
                let k = *r.pick(&[2, 8, 64, 128, 128, 131]);
                **x = Ast::Num(r.below(k).to_string());
            }
            if matches!(lower(n).as_str(), "==" | "eq" | "equal" | "<=" | "gte" | "<" | "!=") && r.chance(1, 3) {
                **x = (**l).clone();
            }
        }
        _ => {}
    }
}

fn bin_ref(a: &Ast, vars: &[(String, i128)]) -> Option<i128> {
    Some(match a {
        Ast::Num(s) => match s.strip_prefix('b') {
            Some(d) => {
                if d.len() > 128 {
                    let d = d.trim_start_matches('0');
                    if d.len() > 128 {
                        return None;
                    }
                }
                let mut v: u128 = 0;
                for c in d.chars() {
                    v = (v << 1) | (c == '1') as u128;
                }
                v as i128
            }
            None => s.parse::<BigInt>().ok()?.to_i128()?,
        },
        Ast::Var(s) => vars.iter().find(|v| v.0 == *s).unwrap().1,
        Ast::Un(_, _, x) => {
            let x = bin_ref(x, vars)?;
            -1 - x // every bit inverted
        }
        Ast::Bin(n, l, r) => {
            let l = bin_ref(l, vars)?;
            let r = bin_ref(r, vars)?;
            let bits = |f: fn(bool, bool) -> bool| {
                let mut v: u128 = 0;
                for k in 0..128 {
                    if f((l as u128 >> k) & 1 == 1, (r as u128 >> k) & 1 == 1) {
                        v |= 1 << k;
                    }
                }
                v as i128
            };
            match lower(n).as_str() {
                "&" | "and" => bits(|a, b| a && b),
                "|" | "or" => bits(|a, b| a || b),
                "^" | "xor" => bits(|a, b| a != b),
                "==" | "eq" | "equal" => (l == r) as i128,
                "!=" | "ne" | "no_equal" => (l != r) as i128,
                ">" | "gt" => (l > r) as i128,
                "<" | "lt" => (l < r) as i128,
                ">=" | "gte" => (l >= r) as i128,
                "<=" | "lte" => (l <= r) as i128,
                "<<" | "shl" | ">>" | "shr" if !(0..128).contains(&r) => return None,
                "<<" | "shl" => {
                    let mut v = l as u128;
                    for _ in 0..r {
                        v = v.wrapping_add(v);
                    }
                    v as i128
                }
                ">>" | "shr" => {
                    // floor division by a power of two
                    let mut v = l;
                    for _ in 0..r {
                        v = v.div_euclid(2);
                    }
                    v
                }
                _ => unreachable!("{}", n),
            }
        }
        _ => unreachable!(),
    })
}

pub fn c11(m: &mut Mon) {
    let t = crate::p_real::real_table("bin", false, false);
    let t = Table::new(t.ops, vec!["x", "y", "foo"], vec!["PI"], false, false);
    let judge = |m: &mut Mon, items: &[(Ast, String)], vars: &[(String, i128)]| {
        let texts: Vec<&str> = items.iter().map(|i| i.1.as_str()).collect();
        let vs: Vec<(String, String)> = vars.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
        for ((a, text), got) in items.iter().zip(eval_many("bin", Cfg::default(), &vs, &texts)) {
            let want = bin_ref(a, vars);
            m.evaluations += 1;
            m.count(if want.is_some() { "values" } else { "errors" });
            if let Ast::Bin(n, ..) = a {
                m.count(&format!("op_{}", lower(n)));
            }
            if a.size() > 1 {
                m.distinct(text);
            }
            let ok = match (want, &got) {
                (Some(v), Out::Ok(s)) => *s == format!("{:b}", v),
                (None, Out::Err(..)) => true,
                _ => false,
            };
            if ok {
                m.sample(|| json!({"expression": text, "observed": got.show()}));
            } else {
                m.violation(
                    format!("C11:{}", text),
                    json!({"expression": text, "variables": vs, "expected": want.map(|v| format!("{:b}", v)), "observed": got.show()}),
                );
            }
        }
    };
    m.cases("trees", 20_000, 600_000, |m, r| {
        let vars: Vec<(String, i128)> = ["x", "y", "foo"].iter().map(|s| (s.to_string(), bin_lit(r).1)).collect();
        let items: Vec<(Ast, String)> = (0..6)
            .map(|_| {
                let size = 2 + r.below(7);
                let mut a = gen_ast(r, &t, size);
                bin_leaves(r, &mut a);
                let (lex, _) = to_lex(r, &t, &a, &Style { redundant: 10, kinds: true, omit_mul: 0 });
                // literals such as b101 need whitespace around words
                let text = spaced(&lex);
                (a, text)
            })
            .collect();
        judge(m, &items, &vars);
    });
    // every operator on every pair of small values, one after another
    m.cases("pairs", 75, 2_000, |m, r| {
        let bins = t.names(|f| matches!(f, Fix::Bin(..)));
        let k = (m.index & 0xff_ffff_ffff) as usize;
        let n = bins[k % bins.len()];
        let x = (k / bins.len() % 67) as i128 - 33;
        let vars = vec![("x".to_string(), x)];
        let items: Vec<(Ast, String)> = (-33..34i128)
            .map(|y| {
                let y = if y < 0 { Ast::Un("~".into(), false, Box::new(Ast::Num((-1 - y).to_string()))) } else { Ast::Num(y.to_string()) };
                let a = Ast::Bin(case_mix(r, n), Box::new(Ast::Var("x".into())), Box::new(y));
                let (lex, _) = to_lex(r, &t, &a, &Style { redundant: 0, kinds: false, omit_mul: 0 });
                let text = spaced(&lex);
                (a, text)
            })
            .collect();
        judge(m, &items, &vars);
        m.count("pairs");
    });
    // every operator under every name on boundary operands, and every shift count
    m.cases("edges", 12_000, 300_000, |m, r| {
        let vars: Vec<(String, i128)> = ["x", "y", "foo"].iter().map(|s| (s.to_string(), bin_lit(r).1)).collect();
        let bins = t.names(|f| matches!(f, Fix::Bin(..)));
        let items: Vec<(Ast, String)> = (0..8)
            .map(|_| {
                let l = if r.chance(1, 4) { Ast::Var("x".into()) } else { Ast::Num(bin_lit(r).0) };
                let n = *r.pick(&bins);
                let n = case_mix(r, n);
                let shift = matches!(lower(&n).as_str(), "<<" | ">>" | "shl" | "shr");
                let rr = if shift && r.chance(5, 6) {
                    Ast::Num(r.below(130).to_string())
                } else if r.chance(1, 5) {
                    l.clone()
                } else if r.chance(1, 4) {
                    Ast::Un("~".into(), false, Box::new(Ast::Num(r.below(200).to_string())))
                } else {
                    Ast::Num(bin_lit(r).0)
                };
                let a = if r.chance(1, 10) {
                    Ast::Un(case_mix(r, "not"), false, Box::new(l))
                } else {
                    Ast::Bin(n, Box::new(l), Box::new(rr))
                };
                let (lex, _) = to_lex(r, &t, &a, &Style { redundant: 0, kinds: false, omit_mul: 0 });
                let text = spaced(&lex);
                (a, text)
            })
            .collect();
        judge(m, &items, &vars);
    });
    // literals alone
    m.cases("literals", 4_000, 60_000, |m, r| {
        let (text, v) = if r.chance(1, 6) {
            match r.below(3) {
                0 => (format!("b{}", "1".repeat(129 + r.below(5))), None),
                1 => (format!("17014118346046923173168730371588410572{}", 8 + r.below(2)), None),
                _ => (format!("b1{}", "0".repeat(128 + r.below(5))), None),
            }
        } else {
            let (s, v) = bin_lit(r);
            (s, Some(v))
        };
        let a = Ast::Num(text.clone());
        let _ = v;
        judge(m, &[(a, text)], &[]);
    });
}

// ---------------------------------------------------------------- C17

use prexel::num_traits;
macro_rules! wrapper {
    ($m:ident, $w:ident, $t:ty, $mac:ident, from_str) => {
        mod $m {
            #[allow(unused_imports)]
            use prexel::num_traits::{FromPrimitive, ToPrimitive, Zero};
            pub struct $w(pub $t);
            impl From<$t> for $w {
                fn from(x: $t) -> Self {
                    $w(x)
                }
            }
            prexel::$mac!($w => 0, $t);
        }
    };
}
macro_rules! wrapper_float {
    ($m:ident, $w:ident, $t:ty, $mac:ident) => {
        mod $m {
            #[allow(unused_imports)]
            use prexel::num_traits::{FromPrimitive, ToPrimitive, Zero};
            pub struct $w {
                pub inner: $t,
            }
            impl From<$t> for $w {
                fn from(x: $t) -> Self {
                    $w { inner: x }
                }
            }
            impl From<i8> for $w {
                fn from(x: i8) -> Self {
                    $w { inner: x as $t }
                }
            }
            prexel::$mac!($w => inner, $t);
        }
    };
}
macro_rules! wrapper_own_str {
    ($m:ident, $w:ident, $t:ty, $mac:ident) => {
        mod $m {
            #[allow(unused_imports)]
            use prexel::num_traits::{FromPrimitive, ToPrimitive, Zero};
            pub struct $w(pub $t);
            impl From<$t> for $w {
                fn from(x: $t) -> Self {
                    $w(x)
                }
            }
            prexel::$mac!($w => 0, $t);
            // its own notation: an optional leading '#'
            impl std::str::FromStr for $w {
                type Err = std::num::ParseIntError;
                fn from_str(s: &str) -> Result<Self, Self::Err> {
                    s.strip_prefix('#').unwrap_or(s).parse::<$t>().map($w)
                }
            }
        }
    };
}
wrapper!(wi32c, W, i32, impl_checked_num_traits_with_field_and_from_str, from_str);
wrapper!(wi64c, W, i64, impl_checked_num_traits_with_field_and_from_str, from_str);
wrapper!(wi128c, W, i128, impl_checked_num_traits_with_field_and_from_str, from_str);
wrapper!(wi8c, W, i8, impl_checked_num_traits_with_field_and_from_str, from_str);
wrapper!(wi64u, W, i64, impl_unchecked_num_traits_with_field_and_from_str, from_str);
wrapper!(wi32u, W, i32, impl_unchecked_num_traits_with_field_and_from_str, from_str);
wrapper_float!(wf64c, W, f64, impl_checked_num_traits_with_field_and_from_str);
wrapper_float!(wf64u, W, f64, impl_unchecked_num_traits_with_field_and_from_str);
wrapper_float!(wf32c, W, f32, impl_checked_num_traits_with_field_and_from_str);
wrapper_own_str!(wi64cs, W, i64, impl_checked_num_traits_with_field);
wrapper_own_str!(wi64us, W, i64, impl_unchecked_num_traits_with_field);

fn run_many<N>(mut c: DefaultContext<'static, N>, vars: &[(String, String)], texts: &[&str]) -> Vec<Out>
where
    N: std::str::FromStr + std::fmt::Debug + std::fmt::Display + Clone + 'static,
{
    for (k, v) in vars {
        if let Ok(n) = N::from_str(v) {
            let _ = c.set_variable(k, n);
        }
    }
    let e = Evaluator::with_context(c);
    texts.iter().map(|t| Out::of(guard(|| e.eval(t)))).collect()
}

fn wrapped(name: &str, implicit: bool, vars: &[(String, String)], texts: &[&str]) -> (Vec<Out>, Vec<Out>) {
    let k = || Config::new().with_implicit_mul(implicit);
    macro_rules! pair {
        ($w:ty, $t:ty, checked) => {
            (run_many::<$w>(DefaultContext::with_config_checked(k()), vars, texts), run_many::<$t>(DefaultContext::with_config_checked(k()), vars, texts))
        };
        ($w:ty, $t:ty, unchecked) => {
            (run_many::<$w>(DefaultContext::with_config_unchecked(k()), vars, texts), run_many::<$t>(DefaultContext::with_config_unchecked(k()), vars, texts))
        };
    }
    match name {
        "i8c" => pair!(wi8c::W, i8, checked),
        "i32c" => pair!(wi32c::W, i32, checked),
        "i64c" => pair!(wi64c::W, i64, checked),
        "i128c" => pair!(wi128c::W, i128, checked),
        "i64cs" => pair!(wi64cs::W, i64, checked),
        "f64c" => pair!(wf64c::W, f64, checked),
        "f32c" => pair!(wf32c::W, f32, checked),
        // a checked wrapper in an unchecked context
        "f64cu" => pair!(wf64c::W, f64, unchecked),
        "i64cu" => pair!(wi64c::W, i64, unchecked),
        "i64u" => pair!(wi64u::W, i64, unchecked),
        "i32u" => pair!(wi32u::W, i32, unchecked),
        "i64us" => pair!(wi64us::W, i64, unchecked),
        "f64u" => pair!(wf64u::W, f64, unchecked),
        _ => panic!("{}", name),
    }
}

/// Everything the context of the kind defines except `random`.
fn whole_table(kind: &str, implicit: bool) -> Table {
    let base = crate::p_real::real_table(kind, implicit, false);
    let mut ops: Vec<OpSpec> = base.ops.into_iter().filter(|o| o.fix != Fix::Fun).collect();
    for n in function_names(kind) {
        if !n.eq_ignore_ascii_case("random") {
            ops.push(OpSpec { name: Box::leak(n.into_boxed_str()), aliases: vec![], fix: Fix::Fun });
        }
    }
    Table::new(ops, vec!["x", "y", "foo", "mn", "mx"], vec!["PI", "E"], implicit, false)
}

fn num_leaves(r: &mut Rng, int: bool, max: &BigInt, a: &mut Ast) {
    match a {
        Ast::Num(s) => {
            *s = if int {
                let g = *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6]);
                int_lit(r, max, g)
            } else {
                match r.below(8) {
                    0 => format!("{}.{}", r.below(1000), r.below(1000)),
                    1 => format!("0.{:03}", r.below(1000)),
                    2 => format!("0.{}{}", "0".repeat(r.below(12)), r.below(1000)),
                    3 => (r.next() >> r.below(60)).to_string(),
                    4 => format!("{}{}", 1 + r.below(9), "0".repeat(r.below(25))),
                    5 => r.pick(&["30", "45", "60", "90", "180", "270", "360"]).to_string(),
                    _ => r.below(20).to_string(),
                }
            }
        }
        Ast::Un(_, _, x) => num_leaves(r, int, max, x),
        Ast::Bin(_, l, x) => {
            num_leaves(r, int, max, l);
            num_leaves(r, int, max, x);
        }
        Ast::Call(n, xs) => {
            xs.iter_mut().for_each(|x| num_leaves(r, int, max, x));
            let (lo, hi) = match lower(n).as_str() {
                "sum" | "product" | "avg" => (1, 99),
                "max" | "min" => (2, 99),
                "log" | "atan" => (1, 2),
                _ => (1, 1),
            };
            if !r.chance(1, 20) {
                while xs.len() < lo {
                    xs.push(Ast::Num((1 + r.below(9)).to_string()));
                }
                xs.truncate(hi);
            }
        }
        _ => {}
    }
}

fn wrap_vars(int: bool, min: &BigInt, max: &BigInt, r: &mut Rng) -> Vec<(String, String)> {
    let v = |k: &str, v: String| (k.to_string(), v);
    if int {
        vec![
            v("x", "3".into()),
            v("y", "-7".into()),
            v("foo", r.range(-100, 100).to_string()),
            v("mn", min.to_string()),
            v("mx", max.to_string()),
        ]
    } else {
        vec![
            v("x", "3".into()),
            v("y", "-7.25".into()),
            v("foo", format!("{}", (r.unit() - 0.5) * 100.0)),
            v("mn", "-1000000000000000000000".into()),
            v("mx", "12345678901234567890123".into()),
        ]
    }
}

pub fn c17(m: &mut Mon) {
    const W: &[&str] = &["i8c", "i32c", "i64c", "i128c", "i64cs", "f64c", "f32c", "f64cu", "i64cu", "i64u", "i32u", "i64us", "f64u"];
    let kind_of = |w: &str| match w {
        "i8c" => "i8",
        "i32c" => "i32",
        "i64c" | "i64cs" => "i64",
        "i128c" => "i128",
        "f64c" => "f64c",
        "f32c" => "f32c",
        "f64cu" | "f64u" => "f64u",
        "i64cu" | "i64u" | "i64us" => "i64u",
        _ => "i32u",
    };
    let tables: std::collections::HashMap<(&str, bool), Table> =
        W.iter().flat_map(|w| [(kind_of(w), true), (kind_of(w), false)]).map(|k| (k, whole_table(k.0, k.1))).collect();
    m.cases("exprs", 20_000, 400_000, |m, r| {
        let w = *r.pick(W);
        let kind = kind_of(w);
        let implicit = r.chance(1, 3);
        let t = &tables[&(kind, implicit)];
        let int = kind.starts_with('i');
        let (min, max) = bounds(kind.trim_end_matches('u'));
        let vars = wrap_vars(int, &min, &max, r);
        let texts: Vec<String> = (0..6)
            .map(|_| {
                let size = 1 + r.below(7);
                let mut a = gen_ast(r, t, size);
                num_leaves(r, int, &max, &mut a);
                if int || r.chance(1, 2) {
                    tame(r, &mut a);
                }
                let (mut lex, _) = to_lex(r, t, &a, &Style { redundant: 5, kinds: false, omit_mul: if implicit { 50 } else { 0 } });
                if r.chance(1, 20) {
                    mutate(r, t, &mut lex);
                }
                if lex.is_empty() {
                    " ".into()
                } else {
                    spaced(&lex)
                }
            })
            .collect();
        let refs: Vec<&str> = texts.iter().map(|s| s.as_str()).collect();
        let (a, b) = wrapped(w, implicit, &vars, &refs);
        for ((text, a), b) in texts.iter().zip(a).zip(b) {
            m.evaluations += 1;
            m.count(&format!("wrapper_{}", w));
            let same = match (&a, &b) {
                (Out::Ok(x), Out::Ok(y)) => {
                    m.count("values");
                    x == y
                }
                (Out::Err(x, _), Out::Err(y, _)) => {
                    m.count("errors");
                    x == y
                }
                // unchecked integers may overflow: both do or neither
                (Out::Panic(_), Out::Panic(_)) => {
                    m.count("both_overflow");
                    true
                }
                _ => false,
            };
            if text.len() > 3 {
                m.distinct(&(w, text));
            }
            if same {
                m.sample(|| json!({"wrapper": w, "expression": text, "observed": a.show()}));
            } else {
                m.violation(
                    format!("C17:{}:{}", w, text),
                    json!({"wrapper": w, "expression": text, "variables": vars, "implicit": implicit, "inner": b.show(), "wrapper_gives": a.show()}),
                );
            }
        }
    });
    // the traits themselves, which evaluation relies on
    m.cases("traits", 4_000, 60_000, |m, r| {
        use prexel::num::checked::*;
        use std::cmp::PartialOrd;
        macro_rules! one {
            ($w:ty, $t:ty, $x:expr, $y:expr, $name:expr) => {{
                let (x, y): ($t, $t) = ($x, $y);
                let (a, b): ($w, $w) = (<$w>::from(x), <$w>::from(y));
                let s = |o: Option<$t>| o.map(|v| v.to_string());
                let sw = |o: Option<$w>| o.map(|v| v.to_string());
                let pairs = vec![
                    ("checked_add", s(CheckedAdd::checked_add(&x, &y)), sw(CheckedAdd::checked_add(&a, &b))),
                    ("checked_sub", s(CheckedSub::checked_sub(&x, &y)), sw(CheckedSub::checked_sub(&a, &b))),
                    ("checked_mul", s(CheckedMul::checked_mul(&x, &y)), sw(CheckedMul::checked_mul(&a, &b))),
                    ("checked_div", s(CheckedDiv::checked_div(&x, &y)), sw(CheckedDiv::checked_div(&a, &b))),
                    ("checked_rem", s(CheckedRem::checked_rem(&x, &y)), sw(CheckedRem::checked_rem(&a, &b))),
                    ("checked_neg", s(CheckedNeg::checked_neg(&x)), sw(CheckedNeg::checked_neg(&a))),
                    ("partial_cmp", Some(format!("{:?}", x.partial_cmp(&y))), Some(format!("{:?}", a.partial_cmp(&b)))),
                    ("eq", Some((x == y).to_string()), Some((a == b).to_string())),
                    ("clone", Some(x.to_string()), Some(a.clone().to_string())),
                    ("debug", Some(format!("{:?}", x)), Some(format!("{:?}", a))),
                    ("to_i64", x.to_i64().map(|v| v.to_string()), a.to_i64().map(|v| v.to_string())),
                    ("to_i128", x.to_i128().map(|v| v.to_string()), a.to_i128().map(|v| v.to_string())),
                    ("to_u128", x.to_u128().map(|v| v.to_string()), a.to_u128().map(|v| v.to_string())),
                    ("to_u64", x.to_u64().map(|v| v.to_string()), a.to_u64().map(|v| v.to_string())),
                    ("to_f64", x.to_f64().map(|v| v.to_string()), a.to_f64().map(|v| v.to_string())),
                    ("zero", Some(<$t as num_traits::Zero>::zero().to_string()), Some(<$w as num_traits::Zero>::zero().to_string())),
                    ("one", Some(<$t as num_traits::One>::one().to_string()), Some(<$w as num_traits::One>::one().to_string())),
                    ("is_zero", Some(num_traits::Zero::is_zero(&x).to_string()), Some(num_traits::Zero::is_zero(&a).to_string())),
                ];
                for (what, want, got) in pairs {
                    m.evaluations += 1;
                    m.count("trait_calls");
                    if want != got {
                        m.violation(format!("C17:{}:{}:{}:{}", $name, what, x, y), json!({"wrapper": $name, "method": what, "x": x.to_string(), "y": y.to_string(), "inner": want, "wrapper_gives": got}));
                    }
                }
                m.distinct(&($name, x.to_string(), y.to_string()));
            }};
        }
        let edge = |r: &mut Rng| *r.pick(&[i64::MIN, i64::MAX, -1, 0, 1, i64::MIN + 1, 2, 3037000500, -3037000500]);
        let (x, y) = if r.chance(1, 2) { (edge(r), edge(r)) } else { (r.next() as i64 >> r.below(60), r.next() as i64 >> r.below(60)) };
        one!(wi64c::W, i64, x, y, "i64c");
        one!(wi32c::W, i32, (x >> 32) as i32, (y >> r.below(63)) as i32, "i32c");
        one!(wi8c::W, i8, x as i8, y as i8, "i8c");
        one!(wi128c::W, i128, (x as i128) << r.below(64), (y as i128) << r.below(64), "i128c");
        one!(wf64c::W, f64, x as f64 / 1024.0, y as f64 / 3.0, "f64c");
    });
}

// ---------------------------------------------------------------- C25

pub fn c25(m: &mut Mon) {
    const PAIRS: &[(&str, &str)] = &[("f64c", "f64u"), ("f32c", "f32u"), ("i32", "i32u"), ("i64", "i64u"), ("i128", "i128u")];
    let tables: Vec<Table> = PAIRS
        .iter()
        .map(|(c, u)| {
            let a = whole_table(c, false);
            let fu = function_names(u);
            Table::new(
                a.ops.into_iter().filter(|o| o.fix != Fix::Fun || fu.iter().any(|n| n == o.name)).collect(),
                a.vars,
                a.consts,
                false,
                false,
            )
        })
        .collect();
    m.cases("exprs", 20_000, 500_000, |m, r| {
        let p = r.below(PAIRS.len());
        let (ck, uk) = PAIRS[p];
        let t = &tables[p];
        let int = ck.starts_with('i');
        let (min, max) = bounds(ck);
        let vars = wrap_vars(int, &min, &max, r);
        let texts: Vec<String> = (0..6)
            .map(|_| {
                let size = 2 + r.below(8);
                let mut a = gen_ast(r, t, size);
                num_leaves(r, int, &max, &mut a);
                if int || r.chance(1, 2) {
                    tame(r, &mut a);
                }
                let (lex, _) = to_lex(r, t, &a, &Style { redundant: 3, kinds: false, omit_mul: 0 });
                spaced(&lex)
            })
            .collect();
        let refs: Vec<&str> = texts.iter().map(|s| s.as_str()).collect();
        let a = eval_many(ck, Cfg::default(), &vars, &refs);
        let b = eval_many(uk, Cfg::default(), &vars, &refs);
        for ((text, a), b) in texts.iter().zip(a).zip(b) {
            m.evaluations += 1;
            if let Out::Ok(x) = &a {
                m.count(&format!("agree_{}", ck));
                m.distinct(&(ck, text));
                let same = matches!(&b, Out::Ok(y) if x == y);
                if same {
                    m.sample(|| json!({"kind": ck, "expression": text, "both": x}));
                } else {
                    m.violation(
                        format!("C25:{}:{}", ck, text),
                        json!({"kind": ck, "expression": text, "variables": vars, "checked": a.show(), "unchecked": b.show()}),
                    );
                }
            } else {
                m.count("checked_errors");
            }
        }
    });
    // every function and operator on its own, with edge arguments and argument lists of any length
    m.cases("calls", 12_000, 200_000, |m, r| {
        let p = r.below(PAIRS.len());
        let (ck, uk) = PAIRS[p];
        let int = ck.starts_with('i');
        let (min, max) = bounds(ck);
        let vars = wrap_vars(int, &min, &max, r);
        let names = function_names(uk);
        let texts: Vec<String> = (0..8)
            .map(|_| {
                let leaf = |r: &mut Rng| -> String {
                    if r.chance(1, 4) {
                        return r.pick(&vars).0.clone();
                    }
                    let mut a = Ast::Num(String::new());
                    num_leaves(r, int, &max, &mut a);
                    let Ast::Num(s) = a else { unreachable!() };
                    if r.chance(2, 5) { format!("(-{})", s) } else { s }
                };
                match r.below(10) {
                    0 => format!("{} {} {}", leaf(r), r.pick(&["+", "-", "*", "/", "^", "mod"]), leaf(r)),
                    1 => format!("{}!", r.below(40)),
                    2 if m.index % 16 == 0 => {
                        // long argument lists
                        let f = *r.pick(&["sum", "product", "avg", "max", "min"]);
                        let n = if r.chance(1, 20) { *r.pick(&[32767, 32768, 33000, 65535, 65536, 65537]) } else if r.chance(1, 2) { 6 + r.below(90) } else { *r.pick(&[99, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1000]) };
                        let v: Vec<String> = (0..n).map(|k| if f == "product" && k % 9 != 0 { "1".into() } else if f == "product" { "(-1)".into() } else { format!("({}{})", r.pick(&["", "-"]), r.below(9)) }).collect();
                        format!("{}({})", f, v.join(","))
                    }
                    _ => {
                        let f = r.pick(&names).clone();
                        let n = *r.pick(&[0, 1, 1, 1, 1, 2, 2, 2, 3, 5]);
                        let v: Vec<String> = (0..n).map(|_| leaf(r)).collect();
                        if f.eq_ignore_ascii_case("random") { leaf(r) } else { format!("{}({})", f, v.join(", ")) }
                    }
                }
            })
            .collect();
        let refs: Vec<&str> = texts.iter().map(|s| s.as_str()).collect();
        let a = eval_many(ck, Cfg::default(), &vars, &refs);
        let b = eval_many(uk, Cfg::default(), &vars, &refs);
        for ((text, a), b) in texts.iter().zip(a).zip(b) {
            m.evaluations += 1;
            if let Out::Ok(x) = &a {
                m.count(&format!("calls_agree_{}", ck));
                m.distinct(&(ck, text));
                if !matches!(&b, Out::Ok(y) if x == y) {
                    let text: String = text.chars().take(300).collect();
                    m.violation(
                        format!("C25:{}:{}", ck, text),
                        json!({"kind": ck, "expression": text, "variables": vars, "checked": a.show(), "unchecked": b.show()}),
                    );
                }
            } else {
                m.count("checked_errors");
            }
        }
    });
    // the tables of operators
    m.cases("tables", PAIRS.len() as u64, PAIRS.len() as u64, |m, _| {
        let k = (m.index & 0xff_ffff) as usize;
        let (ck, uk) = PAIRS[k % PAIRS.len()];
        let (a, b) = (listing(ck), listing(uk));
        for x in a["operators"].as_array().unwrap() {
            for y in b["operators"].as_array().unwrap() {
                if x["name"] == y["name"] && x["kind"] == y["kind"] {
                    m.evaluations += 1;
                    m.count("operators_compared");
                    if x != y {
                        m.violation(format!("C25:{}:operator {}", ck, x["name"]), json!({"checked": x, "unchecked": y}));
                    }
                }
            }
        }
        for x in a["constants"].as_array().unwrap() {
            for y in b["constants"].as_array().unwrap() {
                if x["name"] == y["name"] {
                    m.evaluations += 1;
                    m.count("constants_compared");
                    if x != y {
                        m.violation(format!("C25:{}:constant {}", ck, x["name"]), json!({"checked": x, "unchecked": y}));
                    }
                }
            }
        }
    });
}

fn big(r: &mut Rng) -> BigInt {
    BigInt::from(r.u128())
}
