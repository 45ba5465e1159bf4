//! The library without its number modules: answers `{"kind","exprs","vars","implicit"}` and `{"list"}`, one per line.
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn run<N>(mut c: DefaultContext<'static, N>, vars: &Value, exprs: &[Value]) -> Value
where
    N: std::str::FromStr + std::fmt::Debug + std::fmt::Display + Clone + 'static,
{
    if let Some(m) = vars.as_array() {
        for kv in m {
            if let Ok(n) = N::from_str(kv[1].as_str().unwrap()) {
                let _ = c.set_variable(kv[0].as_str().unwrap(), n);
            }
        }
    }
    let ev = Evaluator::with_context(c);
    Value::Array(
        exprs
            .iter()
            .map(|e| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ev.eval(e.as_str().unwrap()))) {
                Ok(Ok(v)) => json!({ "ok": v.to_string() }),
                Ok(Err(e)) => json!({ "err": e.to_string(), "kind": format!("{:?}", e.kind()) }),
                Err(_) => json!({ "panic": "" }),
            })
            .collect(),
    )
}

fn list<N: std::fmt::Display>(c: DefaultContext<'static, N>) -> Value {
    let mut ops: Vec<Value> = c
        .binary_functions()
        .iter()
        .map(|(k, f)| json!({"name": k.as_str(), "own": f.name(), "kind": "binary", "precedence": f.precedence().0, "associativity": format!("{:?}", f.associativity())}))
        .collect();
    ops.extend(c.unary_functions().iter().map(|(k, f)| json!({"name": k.as_str(), "own": f.name(), "kind": "unary", "notation": format!("{:?}", f.notation())})));
    json!({
        "operators": ops,
        "functions": c.functions().iter().map(|(k, f)| json!({"name": k.as_str(), "own": f.name(), "aliases": f.aliases().map(|a| a.to_vec())})).collect::<Vec<_>>(),
        "constants": c.constants().iter().map(|(k, v)| json!({"name": k.as_str(), "value": v.to_string()})).collect::<Vec<_>>(),
    })
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let q: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let none = vec![];
        let es = q["exprs"].as_array().unwrap_or(&none);
        let c = Config::new().with_implicit_mul(q["implicit"].as_bool().unwrap_or(true));
        let vars = &q["vars"];
        macro_rules! each {
            ($k:expr, $l:expr, $($name:literal => $t:ty, $ctor:ident;)*) => {
                match ($k, $l) {
                    $((Some($name), _) => run::<$t>(DefaultContext::$ctor(c), vars, es),
                    (_, Some($name)) => list::<$t>(DefaultContext::$ctor(c)),)*
                    other => panic!("{:?}", other),
                }
            };
        }
        let a = each!(q["kind"].as_str(), q["list"].as_str(),
            "f64c" => f64, with_config_checked; "f64u" => f64, with_config_unchecked;
            "f32c" => f32, with_config_checked; "f32u" => f32, with_config_unchecked;
            "i32" => i32, with_config_checked; "i128" => i128, with_config_checked;
            "i32u" => i32, with_config_unchecked; "i64u" => i64, with_config_unchecked;
        );
        writeln!(out, "{}", a).unwrap();
        out.flush().unwrap();
    }
}
