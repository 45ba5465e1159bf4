//! The structural properties on the built-in contexts: a fixed table of what each context is meant to
//! define, the reference grammar, and a reference evaluation calling the context's own definitions.
use crate::core::*;
use crate::ctxs::*;
use crate::sym::*;
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Context, DefaultContext};
use prexel::decimal::Decimal;
use prexel::error::{Error, ErrorKind};
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use serde_json::json;

pub trait Real {
    fn eval(&self, text: &str) -> Out;
    fn reference(&self, t: &Table, a: &Ast) -> Out;
}

struct R<N: 'static>(Evaluator<'static, N>);

impl<N> Real for R<N>
where
    N: std::str::FromStr + std::fmt::Debug + std::fmt::Display + Clone + 'static,
{
    fn eval(&self, text: &str) -> Out {
        Out::of(guard(|| self.0.eval(text)))
    }
    fn reference(&self, t: &Table, a: &Ast) -> Out {
        Out::of(guard(|| ref_eval(self.0.context(), t, a)))
    }
}

fn ref_eval<N>(c: &DefaultContext<'static, N>, t: &Table, a: &Ast) -> prexel::Result<N>
where
    N: std::str::FromStr + Clone,
{
    let no = |what: &str| Error::new(ErrorKind::Unknown, format!("reference: {} not defined", what));
    Ok(match a {
        Ast::Num(s) => s.parse().map_err(|_| Error::new(ErrorKind::InvalidInput, "literal"))?,
        Ast::Var(s) => c.get_variable(s).ok_or_else(|| no(s))?.clone(),
        Ast::Const(s) => c.get_constant(s).ok_or_else(|| no(s))?.clone(),
        Ast::Un(n, _, x) => {
            let v = ref_eval(c, t, x)?;
            c.get_unary_function(n).ok_or_else(|| no(n))?.call(v)?
        }
        Ast::Bin(n, l, r) => {
            let l = ref_eval(c, t, l)?;
            let r = ref_eval(c, t, r)?;
            c.get_binary_function(n).ok_or_else(|| no(n))?.call(l, r)?
        }
        Ast::Call(n, xs) => {
            let vs = xs.iter().map(|x| ref_eval(c, t, x)).collect::<Result<Vec<_>, _>>()?;
            c.get_function(n).ok_or_else(|| no(n))?.call(&vs)?
        }
    })
}

fn real<N>(mut c: DefaultContext<'static, N>, vars: &[(&'static str, &'static str)], bin: bool) -> Box<dyn Real>
where
    N: std::str::FromStr + std::fmt::Debug + std::fmt::Display + Clone + 'static,
{
    for (k, v) in vars {
        if let Ok(n) = N::from_str(v) {
            c.set_variable(k, n).unwrap();
        }
    }
    Box::new(R(if bin {
        Evaluator::with_context_and_tokenizer(c, Tokenizer::with_splitter(binary_number_splitter()))
    } else {
        Evaluator::with_context(c)
    }))
}

pub const VALUES: &[(&str, &str)] = &[("x", "3"), ("y", "-7"), ("foo", "11"), ("Bar", "2"), ("x1", "0")];

pub fn real_ctx(kind: &str, cfg: Cfg) -> Box<dyn Real> {
    let c = config(cfg);
    match kind {
        "f64c" => real::<f64>(DefaultContext::with_config_checked(c), VALUES, false),
        "f64u" => real::<f64>(DefaultContext::with_config_unchecked(c), VALUES, false),
        "f32c" => real::<f32>(DefaultContext::with_config_checked(c), VALUES, false),
        "i32" => real::<i32>(DefaultContext::with_config_checked(c), VALUES, false),
        "i64" => real::<i64>(DefaultContext::with_config_checked(c), VALUES, false),
        "i128" => real::<i128>(DefaultContext::with_config_checked(c), VALUES, false),
        "dec" => real::<Decimal>(DefaultContext::with_config_decimal(c), VALUES, false),
        "cplx" => real::<Complex<f64>>(DefaultContext::with_config_complex(c), VALUES, false),
        "bin" => real::<Binary>(DefaultContext::with_config_binary(c), VALUES, true),
        _ => panic!("{}", kind),
    }
}

pub const REAL_KINDS: &[&str] = &["f64c", "f64u", "f32c", "i32", "i64", "i128", "dec", "cplx", "bin"];

/// What the context is meant to define (the names and the grouping of its operators).
pub fn real_table(kind: &str, implicit: bool, custom: bool) -> Table {
    let b = |name, aliases: &[&'static str], p, r| OpSpec { name, aliases: aliases.to_vec(), fix: Fix::Bin(p, r) };
    let f = |name| OpSpec { name, aliases: vec![], fix: Fix::Fun };
    let u = |name, aliases: &[&'static str], fix| OpSpec { name, aliases: aliases.to_vec(), fix };
    let vars: Vec<&'static str> = VALUES.iter().map(|v| v.0).collect();
    if kind == "bin" {
        return Table::new(
            vec![
                b("&", &["and"], 11, false),
                b("|", &["or"], 13, false),
                b("^", &["xor"], 12, false),
                b("==", &["eq", "equal"], 10, false),
                b("!=", &["ne", "no_equal"], 10, false),
                b(">", &["gt"], 9, false),
                b("<", &["lt"], 9, false),
                b(">=", &["gte"], 9, false),
                b("<=", &["lte"], 9, false),
                b(">>", &["shr"], 7, false),
                b("<<", &["shl"], 7, false),
                u("~", &["not"], Fix::Pre),
            ],
            vars,
            vec![],
            implicit,
            custom,
        );
    }
    let mut ops = vec![
        b("+", &[], 1, false),
        b("-", &[], 1, false),
        b("*", &[], 2, false),
        b("/", &[], 2, false),
        b("mod", &[], 2, false),
        b("^", &[], 3, true),
        u("+", &[], Fix::Pre),
        u("-", &[], Fix::Pre),
    ];
    if kind != "cplx" {
        ops.push(u("!", &[], Fix::Post));
        ops.push(f("max"));
        ops.push(f("min"));
    }
    for n in ["sum", "product", "avg", "sqrt", "ln", "log", "sin", "cosh", "atan", "to_radians"] {
        ops.push(f(n));
    }
    if matches!(kind, "f64c" | "f32c" | "i32" | "i64" | "i128") {
        for n in ["abs", "sign", "floor"] {
            ops.push(f(n));
        }
    }
    Table::new(ops, vars, vec!["PI", "E"], implicit, custom)
}

/// Rewrites literals to ones of the kind.
fn localize(r: &mut Rng, kind: &str, a: &mut Ast) {
    match a {
        Ast::Num(s) => {
            if kind.starts_with('i') {
                let n = *r.pick(&[4, 10, 40]);
                *s = r.below(n).to_string();
            } else if kind == "bin" {
                *s = match r.below(3) {
                    0 => format!("b{:b}", r.below(64)),
                    1 => r.below(9).to_string(),
                    _ => (r.next() as u32).to_string(),
                };
            } else if kind == "cplx" && r.chance(1, 3) {
                *s = format!("{}i", r.below(9));
            } else if r.chance(1, 2) {
                *s = r.below(12).to_string();
            }
        }
        Ast::Const(s) if kind == "bin" => *a = Ast::Var(if s.len() > 1 { "x" } else { "y" }.into()),
        // the imaginary unit as a constant: the lower case letter after a number is part of the number
        Ast::Const(s) if kind == "cplx" && r.chance(1, 3) => *s = "I".into(),
        Ast::Un(_, _, x) => localize(r, kind, x),
        Ast::Bin(_, l, x) => {
            localize(r, kind, l);
            localize(r, kind, x);
        }
        Ast::Call(_, xs) => xs.iter_mut().for_each(|x| localize(r, kind, x)),
        _ => {}
    }
}

fn setup(r: &mut Rng, implicit: bool) -> (&'static str, Cfg, Table) {
    let kind = *r.pick(REAL_KINDS);
    let cfg = Cfg { implicit, custom_call: r.chance(1, 4), complex: kind == "cplx" };
    let t = real_table(kind, implicit, cfg.custom_call);
    (kind, cfg, t)
}

fn tree(r: &mut Rng, kind: &str, t: &Table, size: usize) -> Ast {
    // the binary context has no constants and no functions
    let mut t2 = t.clone();
    if kind == "bin" {
        t2.consts = vec!["PI", "E"];
    }
    let mut a = gen_ast(r, &t2, size);
    localize(r, kind, &mut a);
    arity(r, &mut a);
    a
}

/// Mostly gives functions the number of arguments they take.
fn arity(r: &mut Rng, a: &mut Ast) {
    match a {
        Ast::Un(_, _, x) => arity(r, x),
        Ast::Bin(_, l, x) => {
            arity(r, l);
            arity(r, x);
        }
        Ast::Call(n, xs) => {
            xs.iter_mut().for_each(|x| arity(r, x));
            let (lo, hi) = match lower(n).as_str() {
                "sqrt" | "ln" | "sin" | "cosh" | "to_radians" | "abs" | "sign" | "floor" | "atan" => (1, 1),
                "log" => (1, 2),
                "max" | "min" => (2, 9),
                _ => (1, 9),
            };
            if !r.chance(1, 12) {
                while xs.len() < lo {
                    xs.push(Ast::Num(format!("{}", 1 + r.below(5))));
                }
                xs.truncate(hi);
            }
        }
        _ => {}
    }
}

pub fn c02_builtin(m: &mut Mon) {
    m.cases("builtin", 30_000, 400_000, |m, r| {
        let implicit = r.chance(1, 2);
        let (kind, cfg, t) = setup(r, implicit && true);
        let t = if kind == "bin" { real_table(kind, false, cfg.custom_call) } else { t };
        let size = 2 + r.below(10);
        let ast = tree(r, kind, &t, size);
        let st = Style { redundant: *r.pick(&[0, 0, 20]), kinds: r.chance(1, 2), omit_mul: if t.implicit { 60 } else { 0 } };
        let (lex, _) = to_lex(r, &t, &ast, &st);
        let text = join(r, &t, &lex);
        let c = real_ctx(kind, cfg);
        let want = c.reference(&t, &ast);
        let got = c.eval(&text);
        m.evaluations += 1;
        m.count(&format!("builtin_{}", kind));
        if want.is_ok() {
            m.count("builtin_values");
            m.distinct(&text);
        }
        if !want.same_outcome(&got) {
            m.violation(
                format!("C02:{}:{}", kind, text),
                json!({"kind": kind, "expression": text, "implicit": t.implicit, "tree": format!("{:?}", ast), "expected": want.show(), "observed": got.show()}),
            );
        }
    });
}

pub fn c03_builtin(m: &mut Mon) {
    m.cases("builtin", 30_000, 400_000, |m, r| {
        let implicit = r.chance(1, 2);
        let (kind, mut cfg, mut t) = setup(r, implicit);
        if kind == "bin" {
            cfg.implicit = false;
            t = real_table(kind, false, cfg.custom_call);
        }
        let size = 1 + r.below(8);
        let ast = tree(r, kind, &t, size);
        let st = Style { redundant: *r.pick(&[0, 10]), kinds: false, omit_mul: if t.implicit { 60 } else { 0 } };
        let (mut lex, _) = to_lex(r, &t, &ast, &st);
        // only structural breakage: literals stay literals of the kind
        for _ in 0..r.below(3) {
            let n = lex.len();
            match r.below(5) {
                0 if n > 1 => {
                    lex.remove(r.below(n));
                }
                1 => {
                    let l = lex[r.below(n)].clone();
                    lex.insert(r.below(n + 1), l);
                }
                2 => {
                    let (i, j) = (r.below(n), r.below(n));
                    lex.swap(i, j);
                }
                3 => {
                    let l = r.pick(&[Lex::Comma, Lex::Open('('), Lex::Close(')'), Lex::Open('[')]).clone();
                    lex.insert(r.below(n + 1), l);
                }
                _ => {
                    let ops = t.names(|f| f != Fix::Fun);
                    let o = r.pick(&ops).to_string();
                    lex.insert(r.below(n + 1), Lex::Op(o));
                }
            }
        }
        let text = spaced(&lex);
        let mut p = RefParser::new(&t, &lex);
        let parsed = p.parse();
        let c = real_ctx(kind, cfg);
        let got = c.eval(&text);
        m.evaluations += 1;
        m.count(if parsed.is_some() { "builtin_well_formed" } else { "builtin_malformed" });
        m.distinct(&text);
        let (ok, want) = match &parsed {
            None => (matches!(got, Out::Err(..)), "an error: the expression is malformed".to_string()),
            Some(a) => {
                let w = c.reference(&t, a);
                (w.same_outcome(&got), w.show())
            }
        };
        if !ok {
            m.violation(format!("C03:{}:{}", kind, text), json!({"kind": kind, "expression": text, "implicit": t.implicit, "expected": want, "observed": got.show()}));
        }
    });
}

pub fn c12_builtin(m: &mut Mon) {
    m.cases("builtin", 30_000, 400_000, |m, r| {
        let (kind, cfg, t) = setup(r, true);
        if kind == "bin" {
            return; // no multiplication there
        }
        let size = 3 + r.below(10);
        let ast = tree(r, kind, &t, size);
        let mut r1 = r.clone();
        let full = to_lex(&mut r1, &t, &ast, &Style { redundant: 20, kinds: true, omit_mul: 0 }).0;
        let mut short = vec![];
        let mut gone = 0u64;
        for (i, l) in full.iter().enumerate() {
            if *l == Lex::Op("*".into()) && i > 0 && i + 1 < full.len() {
                let next = matches!(full[i + 1], Lex::Fun(_) | Lex::Const(_) | Lex::Var(_) | Lex::Open(_));
                let ok = match full[i - 1] {
                    Lex::Num(_) => next,
                    Lex::Close(_) => next || matches!(full[i + 1], Lex::Num(_)),
                    _ => false,
                };
                if ok && r.chance(3, 4) {
                    gone += 1;
                    continue;
                }
            }
            short.push(l.clone());
        }
        if gone == 0 {
            return;
        }
        let c = real_ctx(kind, cfg);
        let (a, b) = (join(r, &t, &full), join(r, &t, &short));
        let (oa, ob) = (c.eval(&a), c.eval(&b));
        let off = real_ctx(kind, Cfg { implicit: false, ..cfg }).eval(&b);
        m.evaluations += 1;
        m.count(&format!("builtin_{}", kind));
        m.add("signs_left_out", gone);
        m.distinct(&b);
        if !oa.same_outcome(&ob) {
            m.violation(format!("C12:{}:{}", kind, b), json!({"kind": kind, "explicit": a, "implicit": b, "explicit_result": oa.show(), "implicit_result": ob.show()}));
        }
        if !matches!(off, Out::Err(..)) {
            m.violation(format!("C12:disabled:{}:{}", kind, b), json!({"kind": kind, "expression": b, "expected": "an error", "observed": off.show()}));
        }
    });
}

pub fn c15_builtin(m: &mut Mon) {
    m.cases("builtin", 20_000, 300_000, |m, r| {
        let (kind, mut cfg, mut t) = setup(r, false);
        cfg.implicit = r.chance(1, 2);
        t.implicit = cfg.implicit;
        let size = 1 + r.below(10);
        let ast = tree(r, kind, &t, size);
        let a = to_lex(r, &t, &ast, &Style { redundant: 0, kinds: false, omit_mul: 0 }).0;
        let redundant = *r.pick(&[20, 50]);
        let b = to_lex(r, &t, &ast, &Style { redundant, kinds: true, omit_mul: 0 }).0;
        let c = real_ctx(kind, cfg);
        let (a, b) = (join(r, &t, &a), join(r, &t, &b));
        let (oa, ob) = (c.eval(&a), c.eval(&b));
        m.evaluations += 1;
        m.count(&format!("builtin_{}", kind));
        m.distinct(&b);
        if !oa.same_outcome(&ob) {
            m.violation(format!("C15:{}:{}", kind, b), json!({"kind": kind, "plain": a, "grouped": b, "plain_result": oa.show(), "grouped_result": ob.show()}));
        }
    });
}

/// The text of a random expression of the kind (`f64u`, `i128`, `dec`, `cplx`, `bin`).
pub fn any_text(r: &mut Rng, kind: &str, size: usize) -> String {
    let t = real_table(kind, kind != "bin", false);
    let ast = tree(r, kind, &t, size);
    let st = Style { redundant: *r.pick(&[0, 0, 20]), kinds: r.chance(1, 3), omit_mul: if t.implicit { 40 } else { 0 } };
    let (lex, _) = to_lex(r, &t, &ast, &st);
    join(r, &t, &lex)
}
