//! The library as a reference for the applications: reads one JSON request per line, answers with one.
use crate::core::*;
use crate::ctxs::*;
use crate::p_num::{function_names, soup, wild};
use crate::p_real::{any_text, VALUES};
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Context, DefaultContext};
use prexel::decimal::Decimal;
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

/// The variable that stands for `$result`: the text of a line is rewritten to it.
const LAST: &str = "lastresultvalue";

pub trait Session {
    fn line(&mut self, text: &str) -> Out;
    fn set(&mut self, name: &str, value: &str) -> Result<(), String>;
}

struct S<N: 'static> {
    ev: Evaluator<'static, N>,
}

impl<N> Session for S<N>
where
    N: std::str::FromStr + std::fmt::Debug + std::fmt::Display + Clone + 'static,
    N::Err: std::fmt::Display,
{
    fn line(&mut self, text: &str) -> Out {
        let r = guard(|| self.ev.eval(text));
        if let Ok(Ok(v)) = &r {
            self.ev.mut_context().set_variable(LAST, v.clone()).unwrap();
        }
        Out::of(r)
    }
    fn set(&mut self, name: &str, value: &str) -> Result<(), String> {
        let v = N::from_str(value).map_err(|e| e.to_string())?;
        match guard(|| self.ev.mut_context().set_variable(name, v)) {
            Ok(Ok(_)) => Ok(()),
            Ok(Err(e)) => Err(e.to_string()),
            Err(p) => Err(format!("PANIC {}", p)),
        }
    }
}

fn session<N>(c: DefaultContext<'static, N>, bin: bool) -> Box<dyn Session>
where
    N: std::str::FromStr + std::fmt::Debug + std::fmt::Display + Clone + 'static,
    N::Err: std::fmt::Display,
{
    let ev = if bin { Evaluator::with_context_and_tokenizer(c, Tokenizer::with_splitter(binary_number_splitter())) } else { Evaluator::with_context(c) };
    let mut s = S { ev };
    if s.set(LAST, "0").is_err() {
        panic!("no zero");
    }
    Box::new(s)
}

fn open(kind: &str) -> Box<dyn Session> {
    let c = config(Cfg { implicit: true, custom_call: false, complex: kind == "cplx" });
    match kind {
        "f64u" => session::<f64>(DefaultContext::with_config_unchecked(c), false),
        "i128" => session::<i128>(DefaultContext::with_config_checked(c), false),
        "dec" => session::<Decimal>(DefaultContext::with_config_decimal(c), false),
        "cplx" => session::<Complex<f64>>(DefaultContext::with_config_complex(c), false),
        "bin" => session::<Binary>(DefaultContext::with_config_binary(c), true),
        _ => panic!("{}", kind),
    }
}

fn show(o: Out) -> Value {
    match o {
        Out::Ok(s) => json!({ "ok": s }),
        Out::Err(k, s) => json!({ "err": s, "kind": format!("{:?}", k) }),
        Out::Panic(s) => json!({ "panic": s }),
    }
}

/// Texts of the kind: well-formed expressions, extreme ones and soups.
fn texts(r: &mut Rng, kind: &str, n: usize) -> Vec<String> {
    let names = function_names(kind);
    (0..n)
        .map(|_| match r.below(8) {
            0 => {
                let n = *r.pick(&[2, 5, 12]);
                soup(r, kind, &names, n)
            }
            1..=3 => {
                let mut s = String::new();
                let d = 1 + r.below(3);
                wild(r, kind, &names, d, &mut s);
                s
            }
            _ => {
                let n = 1 + r.below(7);
                any_text(r, kind, n)
            }
        })
        .collect()
}

pub fn serve() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    let mut open_session: Option<Box<dyn Session>> = None;
    for line in stdin.lock().lines() {
        let q: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let s = |k: &str| q[k].as_str().unwrap_or_default().to_string();
        let a = if q["gen"].is_string() {
            let mut r = Rng::new(q["seed"].as_u64().unwrap());
            json!(texts(&mut r, &s("gen"), q["n"].as_u64().unwrap() as usize))
        } else if q["list"].is_string() {
            listing(&s("list"))
        } else if q["session"].is_string() {
            open_session = Some(open(&s("session")));
            json!(true)
        } else if q["set"].is_string() {
            match open_session.as_mut().unwrap().set(&s("set"), &s("value")) {
                Ok(()) => json!({"ok": ""}),
                Err(e) => json!({ "err": e }),
            }
        } else if q["line"].is_string() {
            show(open_session.as_mut().unwrap().line(&s("line")))
        } else {
            let kind = s("kind");
            let cfg = Cfg { implicit: q["implicit"].as_bool().unwrap_or(true), custom_call: false, complex: kind.starts_with("cplx") };
            let vars: Vec<(String, String)> = match q["vars"].as_array() {
                Some(a) => a.iter().map(|kv| (kv[0].as_str().unwrap().to_string(), kv[1].as_str().unwrap().to_string())).collect(),
                None if q["vars"].as_bool().unwrap_or(false) => VALUES.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
                None => vec![],
            };
            let es: Vec<&str> = q["exprs"].as_array().unwrap().iter().map(|e| e.as_str().unwrap()).collect();
            Value::Array(eval_many(&kind, cfg, &vars, &es).into_iter().map(show).collect())
        };
        writeln!(out, "{}", a).unwrap();
        out.flush().unwrap();
    }
}
