//! The library the server is built with, as its reference: one JSON request per line, one answer each.
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::decimal::Decimal;
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::fmt::{Debug, Display};
use std::io::{BufRead, Write};
use std::str::FromStr;

fn config() -> Config {
    Config::default().with_grouping(Grouping::Parenthesis).with_grouping(Grouping::Bracket).with_implicit_mul(true)
}

/// `[name, text of the value]` in the order they are set.
fn eval<N, F>(mut c: DefaultContext<'static, N>, bin: bool, parse: F, vars: &[(String, String)], text: &str) -> Value
where
    N: FromStr + Clone + Debug + Display + 'static,
    N::Err: Display,
    F: Fn(&str) -> Result<N, String>,
{
    for (k, v) in vars {
        match parse(v) {
            Err(e) => return json!({ "err": e }),
            Ok(v) => {
                if let Err(e) = c.set_variable(k, v) {
                    return json!({ "err": e.to_string() });
                }
            }
        }
    }
    let ev = if bin { Evaluator::with_context_and_tokenizer(c, Tokenizer::with_splitter(binary_number_splitter())) } else { Evaluator::with_context(c) };
    match ev.eval(text) {
        Ok(v) => json!({ "ok": v.to_string() }),
        Err(e) => json!({ "err": e.to_string() }),
    }
}

fn of<N: FromStr>(s: &str) -> Result<N, String>
where
    N::Err: Display,
{
    s.parse::<N>().map_err(|e| e.to_string())
}

fn answer(q: &Value) -> Value {
    let vars: Vec<(String, String)> = q["variables"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|p| {
                    let v = match &p[1] {
                        Value::String(s) => s.clone(),
                        v => v.as_f64().unwrap().to_string(),
                    };
                    (p[0].as_str().unwrap().to_string(), v)
                })
                .collect()
        })
        .unwrap_or_default();
    let text = q["expression"].as_str().unwrap();
    match q["type"].as_str().unwrap_or("decimal") {
        "decimal" => eval(DefaultContext::with_config_decimal(config()), false, of::<Decimal>, &vars, text),
        "float" => eval(DefaultContext::<f64>::with_config_checked(config()), false, of::<f64>, &vars, text),
        "integer" => eval(DefaultContext::<i128>::with_config_checked(config()), false, of::<i128>, &vars, text),
        "complex" => eval(DefaultContext::<Complex<f64>>::with_config_complex(config().with_complex_number(true)), false, of::<Complex<f64>>, &vars, text),
        "binary" => eval(DefaultContext::with_config_binary(config()), true, |s| of::<i128>(s).map(Binary), &vars, text),
        t => panic!("{}", t),
    }
}

fn listing(t: &str) -> Value {
    fn go<N: Display>(c: DefaultContext<'static, N>) -> Value {
        let mut ops: Vec<Value> = c.binary_functions().iter().map(|(k, f)| json!({"name": k.to_string(), "aliases": f.aliases().map(|a| a.to_vec()).unwrap_or_default(), "description": f.description()})).collect();
        ops.extend(c.unary_functions().iter().map(|(k, f)| json!({"name": k.to_string(), "aliases": f.aliases().map(|a| a.to_vec()).unwrap_or_default(), "description": f.description()})));
        json!({
            "operators": ops,
            "functions": c.functions().iter().map(|(k, f)| json!({"name": k.to_string(), "aliases": f.aliases().map(|a| a.to_vec()).unwrap_or_default(), "description": f.description()})).collect::<Vec<_>>(),
            "constants": c.constants().iter().map(|(k, v)| json!({"name": k.to_string(), "value": v.to_string()})).collect::<Vec<_>>(),
        })
    }
    match t {
        "decimal" => go(DefaultContext::new_decimal()),
        "float" => go::<f64>(DefaultContext::new_checked()),
        "integer" => go::<i128>(DefaultContext::new_checked()),
        "complex" => go::<Complex<f64>>(DefaultContext::new_complex()),
        "binary" => go(DefaultContext::new_binary()),
        _ => panic!("{}", t),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let q: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let a = if let Some(t) = q["list"].as_str() {
            listing(t)
        } else {
            std::panic::catch_unwind(|| answer(&q)).unwrap_or(json!({"panic": true}))
        };
        writeln!(out, "{}", a).unwrap();
        out.flush().unwrap();
    }
}
