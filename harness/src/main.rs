mod core;
mod ctxs;
mod p_ctx;
mod p_expr;
mod p_log;
mod p_num;
mod p_real;
mod serve;
mod sym;
use crate::core::*;

fn main() {
    install_panic_hook();
    let args = Args::parse();
    if args.prop == "list" {
        println!("{}", serde_json::to_string_pretty(&ctxs::listing(&args.rest[0])).unwrap());
        return;
    }
    if args.prop == "serve" {
        return serve::serve();
    }
    if args.prop == "eval" {
        let kind = args.rest[0].clone();
        let cfg = ctxs::Cfg { implicit: kind.ends_with('*'), ..Default::default() };
        for e in &args.rest[1..] {
            println!("{:30} {}", e, ctxs::eval1(kind.trim_end_matches('*'), cfg, &[("x".into(), "3".into())], e).show());
        }
        return;
    }
    let mut m = Mon::new(args.clone());
    match args.prop.as_str() {
        "C02" => p_expr::c02(&mut m),
        "C03" => p_expr::c03(&mut m),
        "C04" => p_expr::c04(&mut m),
        "C12" => p_expr::c12(&mut m),
        "C14" => p_expr::c14(&mut m),
        "C15" => p_expr::c15(&mut m),
        "C01" => p_num::c01(&mut m),
        "C07" => p_num::c07(&mut m),
        "C08" => p_log::c08(&mut m),
        "C09" => p_log::c09(&mut m),
        "C10" => p_log::c10(&mut m),
        "C11" => p_num::c11(&mut m),
        "C17" => p_num::c17(&mut m),
        "C25" => p_num::c25(&mut m),
        "C05" => p_ctx::c05(&mut m),
        "C06" => p_ctx::c06(&mut m),
        "C13" => p_ctx::c13(&mut m),
        "C16" => p_ctx::c16(&mut m),
        "C18" => p_ctx::c18(&mut m),
        "C24" => p_ctx::c24(&mut m),
        "C26" => p_ctx::c26(&mut m),
        other => panic!("unknown property {}", other),
    }
    m.finish();
}
