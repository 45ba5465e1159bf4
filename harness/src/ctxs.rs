//! The built-in contexts, behind one uniform "evaluate this text" interface.
use crate::core::{guard, Out};
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::decimal::Decimal;
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;

pub const KINDS: &[&str] = &[
    "f64c", "f64u", "f32c", "f32u", "i8", "i16", "i32", "i64", "i128", "isize", "dec", "cplx", "cplx32", "bin",
];

#[derive(Clone, Copy, Debug, Default)]
pub struct Cfg {
    pub implicit: bool,
    pub custom_call: bool,
    pub complex: bool,
}

pub fn config(c: Cfg) -> Config {
    let mut k = Config::new();
    if c.implicit {
        k = k.with_implicit_mul(true);
    }
    if c.custom_call {
        k = k.with_custom_function_call(true).with_grouping(Grouping::Bracket).with_grouping(Grouping::Brace);
    }
    if c.complex {
        k = k.with_complex_number(true);
    }
    k
}

fn run<N>(mut ctx: DefaultContext<'static, N>, vars: &[(String, String)], bin: bool, exprs: &[&str]) -> Vec<Out>
where
    N: std::str::FromStr + std::fmt::Debug + std::fmt::Display + Clone + 'static,
{
    for (k, v) in vars {
        if let Ok(n) = N::from_str(v) {
            let _ = ctx.set_variable(k, n);
        }
    }
    let ev: Evaluator<N> = if bin {
        Evaluator::with_context_and_tokenizer(ctx, Tokenizer::with_splitter(binary_number_splitter()))
    } else {
        Evaluator::with_context(ctx)
    };
    exprs.iter().map(|e| Out::of(guard(|| ev.eval(e)))).collect()
}

/// Evaluates the texts in a fresh built-in context of the given kind.
pub fn eval_many(kind: &str, cfg: Cfg, vars: &[(String, String)], exprs: &[&str]) -> Vec<Out> {
    let c = config(cfg);
    match kind {
        "f64c" => run::<f64>(DefaultContext::with_config_checked(c), vars, false, exprs),
        "f64u" => run::<f64>(DefaultContext::with_config_unchecked(c), vars, false, exprs),
        "f32c" => run::<f32>(DefaultContext::with_config_checked(c), vars, false, exprs),
        "f32u" => run::<f32>(DefaultContext::with_config_unchecked(c), vars, false, exprs),
        "i8" => run::<i8>(DefaultContext::with_config_checked(c), vars, false, exprs),
        "i16" => run::<i16>(DefaultContext::with_config_checked(c), vars, false, exprs),
        "i32" => run::<i32>(DefaultContext::with_config_checked(c), vars, false, exprs),
        "i64" => run::<i64>(DefaultContext::with_config_checked(c), vars, false, exprs),
        "i128" => run::<i128>(DefaultContext::with_config_checked(c), vars, false, exprs),
        "isize" => run::<isize>(DefaultContext::with_config_checked(c), vars, false, exprs),
        "i32u" => run::<i32>(DefaultContext::with_config_unchecked(c), vars, false, exprs),
        "i64u" => run::<i64>(DefaultContext::with_config_unchecked(c), vars, false, exprs),
        "i128u" => run::<i128>(DefaultContext::with_config_unchecked(c), vars, false, exprs),
        "dec" => run::<Decimal>(DefaultContext::with_config_decimal(c), vars, false, exprs),
        "cplx" => run::<Complex<f64>>(DefaultContext::with_config_complex(c), vars, false, exprs),
        "cplx32" => run::<Complex<f32>>(DefaultContext::with_config_complex(c), vars, false, exprs),
        "bin" => run::<Binary>(DefaultContext::with_config_binary(c), vars, true, exprs),
        _ => panic!("unknown context kind {}", kind),
    }
}

pub fn eval1(kind: &str, cfg: Cfg, vars: &[(String, String)], e: &str) -> Out {
    eval_many(kind, cfg, vars, &[e]).pop().unwrap()
}

macro_rules! described {
    ($f:expr) => {{
        #[cfg(feature = "docs")]
        let d = $f.description();
        #[cfg(not(feature = "docs"))]
        let d: Option<&str> = None;
        d
    }};
}

/// Everything a built-in context defines, as JSON.
pub fn listing(kind: &str) -> serde_json::Value {
    fn go<N: std::fmt::Display>(c: DefaultContext<'static, N>) -> serde_json::Value {
        use serde_json::json;
        let mut ops: Vec<_> = c
            .binary_functions()
            .iter()
            .map(|(k, f)| json!({"name": k.as_str(), "own": f.name(), "kind": "binary", "precedence": f.precedence().0, "associativity": format!("{:?}", f.associativity()), "description": described!(f)}))
            .collect();
        ops.extend(c.unary_functions().iter().map(|(k, f)| json!({"name": k.as_str(), "own": f.name(), "kind": "unary", "notation": format!("{:?}", f.notation()), "description": described!(f)})));
        json!({
            "operators": ops,
            "functions": c.functions().iter().map(|(k, f)| json!({"name": k.as_str(), "own": f.name(), "aliases": f.aliases().map(|a| a.to_vec()), "description": described!(f)})).collect::<Vec<_>>(),
            "constants": c.constants().iter().map(|(k, v)| json!({"name": k.as_str(), "value": v.to_string()})).collect::<Vec<_>>(),
        })
    }
    match kind {
        "f64c" => go::<f64>(DefaultContext::new_checked()),
        "f64u" => go::<f64>(DefaultContext::new_unchecked()),
        "f32c" => go::<f32>(DefaultContext::new_checked()),
        "f32u" => go::<f32>(DefaultContext::new_unchecked()),
        "i8" => go::<i8>(DefaultContext::new_checked()),
        "i16" => go::<i16>(DefaultContext::new_checked()),
        "i32" => go::<i32>(DefaultContext::new_checked()),
        "i64" => go::<i64>(DefaultContext::new_checked()),
        "i128" => go::<i128>(DefaultContext::new_checked()),
        "isize" => go::<isize>(DefaultContext::new_checked()),
        "i32u" => go::<i32>(DefaultContext::new_unchecked()),
        "i64u" => go::<i64>(DefaultContext::new_unchecked()),
        "i128u" => go::<i128>(DefaultContext::new_unchecked()),
        "dec" => go::<Decimal>(DefaultContext::new_decimal()),
        "cplx" => go::<Complex<f64>>(DefaultContext::new_complex()),
        "cplx32" => go::<Complex<f32>>(DefaultContext::new_complex()),
        "bin" => go::<Binary>(DefaultContext::new_binary()),
        _ => panic!("unknown context kind {}", kind),
    }
}
