//! C02 C03 C04 C12 C14 C15: expression structure, on random operator tables and recorded calls.
use crate::core::*;
use crate::sym::*;
use prexel::error::ErrorKind;
use prexel::evaluator::infix_to_rpn;
use prexel::token::Token;
use serde_json::json;

fn table(r: &mut Rng) -> Table {
    let implicit = r.chance(1, 2);
    let custom = r.chance(1, 3);
    Table::random(r, implicit, custom)
}

fn detail(t: &Table, text: &str, expected: &str, got: &str) -> serde_json::Value {
    json!({"expression": text, "table": t.describe(), "expected": expected, "observed": got})
}

/// A well-formed sequence with its tree.
fn well_formed(r: &mut Rng, t: &Table) -> (Ast, Vec<Lex>) {
    let big = r.chance(1, 10);
    let size = 1 + r.below(if big { 40 } else { 12 });
    let large = if r.chance(1, 250) { 1 + r.below(3) } else { 0 };
    if large == 1 {
        let lex = gen_flat(r, t);
        let a = RefParser::new(t, &lex).parse().expect("a flat expression");
        return (a, lex);
    }
    let a = if large == 2 { gen_big(r, t) } else { gen_ast(r, t, size) };
    let st = Style { redundant: *r.pick(&[0, 0, 15, 40]), kinds: r.chance(1, 2), omit_mul: if t.implicit { 70 } else { 0 } };
    let (mut lex, _) = to_lex(r, t, &a, &st);
    if large == 3 {
        wrap_deeply(r, &mut lex, st.kinds);
    }
    (a, lex)
}

/// Well-formed, broken and random sequences.
fn any_sequence(r: &mut Rng, t: &Table) -> Vec<Lex> {
    match r.below(4) {
        0 => well_formed(r, t).1,
        1 | 2 => {
            let (_, mut l) = well_formed(r, t);
            mutate(r, t, &mut l);
            l
        }
        _ => (0..1 + r.below(7)).map(|_| any_lex(r, t)).collect(),
    }
}

fn observe(t: &Table, text: &str) -> (Out, Vec<Call>) {
    trace_reset(None);
    let ev = t.evaluator();
    let o = Out::of(guard(|| ev.eval(text)));
    (o, trace_take())
}

pub fn c02(m: &mut Mon) {
    m.cases("tree", 40_000, 600_000, |m, r| {
        let t = table(r);
        let (ast, lex) = well_formed(r, &t);
        let text = join(r, &t, &lex);
        let want = ast.value(&t, &mut vec![]);
        // the renderer and the reference parser must agree, else the case is no evidence
        let mut p = RefParser::new(&t, &lex);
        match p.parse() {
            Some(b) if b == ast => {}
            other => panic!("reference disagreement on {:?}: {:?} vs {:?} {}", text, ast, other, t.describe()),
        }
        let (o, _) = observe(&t, &text);
        m.evaluations += 1;
        m.add("operators_applied", (want.matches('<').count()) as u64);
        m.add("implied_multiplications", p.implied as u64);
        if ast.size() > 2 {
            m.distinct(&(want.clone(), t.implicit));
        }
        m.sample(|| json!({"expression": text, "tree": want, "table": t.describe()}));
        if o != Out::Ok(want.clone()) {
            m.violation(format!("C02:{}", text), detail(&t, &text, &want, &o.show()));
        }
    });
    crate::p_real::c02_builtin(m);
}

pub fn c03(m: &mut Mon) {
    m.cases("accept", 60_000, 900_000, |m, r| {
        let t = table(r);
        let lex = any_sequence(r, &t);
        if lex.is_empty() {
            return;
        }
        let text = if r.chance(1, 2) { join(r, &t, &lex) } else { spaced(&lex) };
        let mut p = RefParser::new(&t, &lex);
        let want = p.parse();
        let (o, _) = observe(&t, &text);
        m.evaluations += 1;
        m.distinct(&text);
        m.count(if want.is_some() { "well_formed" } else { "malformed" });
        m.sample(|| json!({"expression": text, "well_formed": want.is_some(), "outcome": o.show()}));
        match (&want, &o) {
            (Some(a), Out::Ok(v)) => {
                let e = a.value(&t, &mut vec![]);
                if *v != e {
                    m.violation(format!("C03:value:{}", text), detail(&t, &text, &e, &o.show()));
                }
            }
            (None, Out::Err(..)) => {}
            (Some(_), _) => m.violation(format!("C03:rejects:{}", text), detail(&t, &text, "a value: the expression is well formed", &o.show())),
            (None, _) => m.violation(format!("C03:accepts:{}", text), detail(&t, &text, "an error: the expression is malformed", &o.show())),
        }
    });
    // the same judgement for token lists handed over directly, which need not come from text
    m.cases("tokens", 20_000, 300_000, |m, r| {
        let t = table(r);
        let lex = any_sequence(r, &t);
        let mut p = RefParser::new(&t, &lex);
        let want = p.parse();
        if want.is_none() && lex.iter().any(|l| matches!(l, Lex::Op(_))) && !r.chance(1, 2) {
            return; // classification of operators in malformed lists is not specified: sample fewer
        }
        let toks = expected_tokens(&t, &lex);
        trace_reset(None);
        let ev = t.evaluator();
        let o = Out::of(guard(|| ev.eval_tokens(&toks)));
        trace_take();
        m.evaluations += 1;
        m.count(if want.is_some() { "token_lists_well_formed" } else { "token_lists_malformed" });
        m.distinct(&spaced(&lex));
        let good = match (&want, &o) {
            (Some(a), Out::Ok(v)) => *v == a.value(&t, &mut vec![]),
            (None, Out::Err(..)) => true,
            _ => false,
        };
        if !good {
            let text = spaced(&lex);
            m.violation(
                format!("C03:tokens:{}", text),
                detail(&t, &text, if want.is_some() { "a value" } else { "an error" }, &o.show()),
            );
        }
    });
    // a token that no text gives, or a name nobody defined, in a list that is otherwise well formed
    m.cases("foreign", 12_000, 200_000, |m, r| {
        let t = table(r);
        let (_, lex) = well_formed(r, &t);
        let mut toks = expected_tokens(&t, &lex);
        let k = r.below(toks.len());
        let nobody = || "nobody_knows".to_string();
        let what = match (&toks[k], r.below(3)) {
            (Token::GroupingOpen(_), 0) => {
                toks[k] = Token::GroupingOpen(*r.pick(&['<', '>', '\0', ' ', ',', 'a', '\u{ff08}', '\u{ff09}']));
                "other opening"
            }
            (Token::GroupingClose(_), 0) => {
                toks[k] = Token::GroupingClose(*r.pick(&['<', '>', '\0', ' ', ',', 'a', '\u{ff08}', '\u{ff09}']));
                "other closing"
            }
            (Token::Variable(_) | Token::Constant(_) | Token::Number(_), 0 | 1) => {
                toks[k] = if r.chance(1, 2) { Token::Variable(nobody()) } else { Token::Constant(nobody()) };
                "unknown name"
            }
            (Token::Function(_), 0 | 1) => {
                toks[k] = Token::Function(nobody());
                "unknown name"
            }
            (Token::BinaryOperator(_), 0 | 1) => {
                toks[k] = Token::BinaryOperator(nobody());
                "unknown name"
            }
            (Token::UnaryOperator(_), 0 | 1) => {
                toks[k] = Token::UnaryOperator(nobody());
                "unknown name"
            }
            _ => {
                let k = r.below(toks.len() + 1);
                let x = match r.below(3) {
                    0 => Token::ArgCount(r.below(4)),
                    1 => Token::Unknown(r.pick(&["", "x", "+", "(", "nobody"]).to_string()),
                    _ => Token::ArgCount(*r.pick(&[usize::MAX, 1, 1 << 40])),
                };
                toks.insert(k, x);
                "not_infix"
            }
        };
        trace_reset(None);
        let ev = t.evaluator();
        let o = Out::of(guard(|| ev.eval_tokens(&toks)));
        trace_take();
        m.evaluations += 1;
        m.count(&format!("foreign_{}", what.replace(' ', "_")));
        m.distinct(&format!("{:?}", toks));
        if !matches!(o, Out::Err(..)) {
            let text = format!("{:?}", toks);
            m.violation(format!("C03:foreign:{}", text), detail(&t, &text, &format!("an error: {}", what), &o.show()));
        }
    });
    crate::p_real::c03_builtin(m);
}

pub fn c04(m: &mut Mon) {
    m.cases("rpn", 50_000, 800_000, |m, r| {
        let t = table(r);
        let lex = if r.chance(1, 2) { well_formed(r, &t).1 } else { any_sequence(r, &t) };
        let toks = expected_tokens(&t, &lex);
        let before = toks.clone();
        let ctx = t.context();
        let out = match guard(|| (infix_to_rpn(&toks, &ctx), infix_to_rpn(&toks, &ctx))) {
            Ok((a, b)) => {
                if a != b {
                    m.violation(format!("C04:nondeterministic:{}", spaced(&lex)), json!({"tokens": format!("{:?}", toks), "first": format!("{:?}", a), "second": format!("{:?}", b)}));
                }
                a
            }
            Err(p) => {
                m.violation(format!("C04:panic:{}", spaced(&lex)), json!({"tokens": format!("{:?}", toks), "panic": p}));
                return;
            }
        };
        if toks != before {
            m.violation(format!("C04:input:{}", spaced(&lex)), json!({"tokens": format!("{:?}", before), "after": format!("{:?}", toks)}));
        }
        m.evaluations += 1;
        let rpn = match out {
            Ok(x) => x,
            Err(_) => {
                m.count("rejected");
                return;
            }
        };
        m.count("converted");
        m.add("output_tokens", rpn.len() as u64);
        m.distinct(&spaced(&lex));
        m.sample(|| json!({"tokens": format!("{:?}", toks), "rpn": format!("{:?}", rpn)}));
        if let Some(why) = rpn_fault(&t, &lex, &toks, &rpn) {
            m.violation(
                format!("C04:{}", spaced(&lex)),
                json!({"why": why, "tokens": format!("{:?}", toks), "rpn": format!("{:?}", rpn), "table": t.describe()}),
            );
        }
    });
}

/// What is wrong with a conversion, judged without knowing how it is done.
fn rpn_fault(t: &Table, lex: &[Lex], toks: &[Token<Sym>], rpn: &[Token<Sym>]) -> Option<String> {
    let operand = |k: &&Token<Sym>| matches!(k, Token::Number(_) | Token::Variable(_) | Token::Constant(_));
    let a: Vec<&Token<Sym>> = toks.iter().filter(operand).collect();
    let b: Vec<&Token<Sym>> = rpn.iter().filter(operand).collect();
    if a != b {
        return Some(format!("operands {:?} became {:?}", a, b));
    }
    let mut depth: i64 = 0;
    let mut pending: Option<usize> = None;
    for k in rpn {
        if pending.is_some() && !matches!(k, Token::Function(_)) {
            return Some("argument count not followed by its function".into());
        }
        match k {
            Token::Number(_) | Token::Variable(_) | Token::Constant(_) => depth += 1,
            Token::UnaryOperator(_) => {
                if depth < 1 {
                    return Some("unary operator without operand".into());
                }
            }
            Token::BinaryOperator(_) => {
                if depth < 2 {
                    return Some("binary operator without two operands".into());
                }
                depth -= 1;
            }
            Token::ArgCount(n) => pending = Some(*n),
            Token::Function(f) => match pending.take() {
                None => return Some(format!("call of {} without argument count", f)),
                Some(n) => {
                    if depth < n as i64 {
                        return Some(format!("call of {} lacks arguments", f));
                    }
                    depth += 1 - n as i64;
                }
            },
            other => return Some(format!("token {:?} in the output", other)),
        }
    }
    if pending.is_some() || depth != 1 {
        return Some(format!("leaves {} values", depth));
    }
    // conservation of operators and calls, apart from implied multiplications
    let count = |ts: &[Token<Sym>]| {
        let mut v: Vec<String> = ts
            .iter()
            .filter_map(|k| match k {
                Token::UnaryOperator(n) => Some(format!("u{}", n)),
                Token::BinaryOperator(n) => Some(format!("b{}", n)),
                Token::Function(n) => Some(format!("f{}", n)),
                _ => None,
            })
            .collect();
        v.sort();
        v
    };
    let (mut ca, cb) = (count(toks), count(rpn));
    let mut p = RefParser::new(t, lex);
    let ast = match p.parse() {
        Some(a) => a,
        None => return Some("a malformed sequence was converted".into()),
    };
    for _ in 0..p.implied {
        ca.push("b*".into());
    }
    ca.sort();
    if ca != cb {
        return Some(format!("operators and calls {:?} became {:?}", ca, cb));
    }
    // argument counts, in order of the calls' completion
    fn calls(a: &Ast, v: &mut Vec<(String, usize)>) {
        match a {
            Ast::Un(_, _, x) => calls(x, v),
            Ast::Bin(_, l, r) => {
                calls(l, v);
                calls(r, v)
            }
            Ast::Call(n, xs) => {
                xs.iter().for_each(|x| calls(x, v));
                v.push((n.clone(), xs.len()));
            }
            _ => {}
        }
    }
    let mut want = vec![];
    calls(&ast, &mut want);
    let mut got = vec![];
    let mut last = 0;
    for k in rpn {
        match k {
            Token::ArgCount(n) => last = *n,
            Token::Function(f) => got.push((f.clone(), last)),
            _ => {}
        }
    }
    if want != got {
        return Some(format!("calls {:?} became {:?}", want, got));
    }
    None
}

pub fn c12(m: &mut Mon) {
    m.cases("pairs", 30_000, 500_000, |m, r| {
        let custom = r.chance(1, 3);
        let t = Table::random(r, true, custom);
        let size = 3 + r.below(14);
        let st = Style { redundant: *r.pick(&[0, 15, 30]), kinds: r.chance(1, 2), omit_mul: 0 };
        let full = match r.below(500) {
            0 => gen_flat(r, &t),
            1 => {
                let a = gen_big(r, &t);
                to_lex(r, &t, &a, &st).0
            }
            k => {
                let ast = gen_ast(r, &t, size);
                let mut l = to_lex(r, &t, &ast, &st).0;
                if k == 2 {
                    wrap_deeply(r, &mut l, st.kinds);
                }
                l
            }
        };
        // leave out a random subset of the signs that may be left out
        let mut short = vec![];
        let mut gone = 0;
        for (i, l) in full.iter().enumerate() {
            if *l == Lex::Op("*".into()) && i > 0 && i + 1 < full.len() {
                let next = matches!(full[i + 1], Lex::Fun(_) | Lex::Const(_) | Lex::Var(_) | Lex::Open(_));
                let ok = match full[i - 1] {
                    Lex::Num(_) => next,
                    Lex::Close(_) => next || matches!(full[i + 1], Lex::Num(_)),
                    _ => false,
                };
                if ok && r.chance(2, 3) {
                    gone += 1;
                    continue;
                }
            }
            short.push(l.clone());
        }
        if gone == 0 {
            return;
        }
        let a = join(r, &t, &full);
        let b = join(r, &t, &short);
        let (oa, ta) = observe(&t, &a);
        let (ob, tb) = observe(&t, &b);
        m.evaluations += 1;
        m.add("signs_left_out", gone);
        m.distinct(&b);
        m.sample(|| json!({"explicit": a, "implicit": b, "result": oa.show()}));
        if !oa.is_ok() || oa != ob || ta != tb {
            m.violation(format!("C12:{}", b), json!({"explicit": a, "implicit": b, "explicit_result": oa.show(), "implicit_result": ob.show(), "table": t.describe()}));
        }
        // without the option the shorter text is an error
        let off = Table::new(t.ops.clone(), t.vars.clone(), t.consts.clone(), false, t.custom_call);
        let (oc, _) = observe(&off, &b);
        m.count("disabled_checked");
        if !matches!(oc, Out::Err(..)) {
            m.violation(format!("C12:disabled:{}", b), json!({"expression": b, "expected": "an error, implicit multiplication is off", "observed": oc.show(), "table": off.describe()}));
        }
    });
    crate::p_real::c12_builtin(m);
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::Overflow,
    ErrorKind::Zero,
    ErrorKind::NAN,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidArgumentCount,
    ErrorKind::DivisionByZero,
    ErrorKind::NegativeValue,
    ErrorKind::PositiveValue,
    ErrorKind::InvalidExpression,
    ErrorKind::Empty,
    ErrorKind::Unknown,
];

pub fn c14(m: &mut Mon) {
    m.cases("trace", 40_000, 600_000, |m, r| {
        let t = table(r);
        let (ast, lex) = well_formed(r, &t);
        let text = join(r, &t, &lex);
        let mut want = vec![];
        let value = ast.value(&t, &mut want);
        let ev = t.evaluator();
        trace_reset(None);
        let o = Out::of(guard(|| ev.eval(&text)));
        let got = trace_take();
        m.evaluations += 1;
        m.add("calls_observed", got.len() as u64);
        if want.len() > 1 {
            m.distinct(&got);
        }
        m.sample(|| json!({"expression": text, "calls": got.iter().map(|c| format!("{}{:?}", c.op, c.args)).collect::<Vec<_>>()}));
        if got != want || o != Out::Ok(value.clone()) {
            m.violation(
                format!("C14:{}", text),
                json!({"expression": text, "table": t.describe(), "expected_calls": format!("{:?}", want), "observed_calls": format!("{:?}", got), "expected": value, "observed": o.show()}),
            );
            return;
        }
        if want.is_empty() {
            return;
        }
        // make one call fail: nothing later may be called and its error must come out
        let k = r.below(want.len());
        let kind = *r.pick(KINDS);
        let msg = format!("failure {} {}", k, r.below(1_000_000));
        trace_reset(Some((k, kind, msg.clone())));
        let o = Out::of(guard(|| ev.eval(&text)));
        let got = trace_take();
        m.count("injected_failures");
        if got[..] != want[..=k] || o != Out::Err(kind, msg.clone()) {
            m.violation(
                format!("C14:fail:{}:{}", k, text),
                json!({"expression": text, "table": t.describe(), "failing_call": k, "expected_calls": format!("{:?}", &want[..=k]), "observed_calls": format!("{:?}", got), "expected": format!("Err({:?}: {})", kind, msg), "observed": o.show()}),
            );
        }
    });
}

pub fn c15(m: &mut Mon) {
    m.cases("groups", 30_000, 500_000, |m, r| {
        let t = table(r);
        let size = 1 + r.below(14);
        let ast = gen_ast(r, &t, size);
        let plain = Style { redundant: 0, kinds: false, omit_mul: 0 };
        let (a, _) = to_lex(r, &t, &ast, &plain);
        let many = Style { redundant: *r.pick(&[20, 40, 60]), kinds: r.chance(2, 3), omit_mul: 0 };
        let (mut b, _) = to_lex(r, &t, &ast, &many);
        if r.chance(1, 100) {
            wrap_deeply(r, &mut b, many.kinds);
            m.count("deep");
        }
        if a == b {
            return;
        }
        let (sa, sb) = (join(r, &t, &a), join(r, &t, &b));
        let (oa, ta) = observe(&t, &sa);
        let (ob, tb) = observe(&t, &sb);
        m.evaluations += 1;
        m.add("groups_added", b.iter().filter(|l| matches!(l, Lex::Open(_))).count() as u64);
        m.distinct(&sb);
        m.sample(|| json!({"plain": sa, "grouped": sb, "result": oa.show()}));
        if oa != ob || ta != tb {
            m.violation(format!("C15:{}", sb), json!({"plain": sa, "grouped": sb, "plain_result": oa.show(), "grouped_result": ob.show(), "table": t.describe()}));
        }
    });
    // which characters are grouping symbols, and which belong together, whatever the configuration
    m.cases("pairs", 300, 3_000, |m, r| {
        use prexel::context::{Config, Grouping};
        let mut c = Config::new().with_implicit_mul(r.chance(1, 2)).with_custom_function_call(r.chance(1, 2));
        for g in [Grouping::Parenthesis, Grouping::Bracket, Grouping::Brace] {
            if r.chance(1, 2) {
                c = c.with_grouping(g);
            }
        }
        let x = match r.below(3) {
            0 => *r.pick(&['(', ')', '[', ']', '{', '}']),
            1 => char::from_u32(r.below(0x180) as u32).unwrap_or('a'),
            _ => char::from_u32((r.next() % 0x11_0000) as u32).unwrap_or('b'),
        };
        let pair = [('(', ')'), ('[', ']'), ('{', '}')].into_iter().find(|p| p.0 == x || p.1 == x);
        let open = pair.filter(|p| p.0 == x);
        let close = pair.filter(|p| p.1 == x);
        let seen = guard(|| {
            let g = Grouping::new(x);
            let mut bad = vec![];
            if c.get_group_open_for(x) != close.map(|p| p.0) || c.get_group_close_for(x) != open.map(|p| p.1) {
                bad.push("get_group_open_for or get_group_close_for");
            }
            if c.is_group_open(x) != open.is_some() || c.is_group_close(x) != close.is_some() {
                bad.push("is_group_open or is_group_close");
            }
            if g.is_some() != pair.is_some() || c.get_group_symbol(x).map_or(false, |p| Some(p) != pair) {
                bad.push("get_group_symbol");
            }
            if let (Some(g), Some(p)) = (g, pair) {
                if g.symbols() != p || g.open() != p.0 || g.close() != p.1 || g.is_open(x) != open.is_some() || g.is_close(x) != close.is_some() {
                    bad.push("symbols");
                }
                if g.close_for(x) != open.map(|p| p.1) || g.open_for(x) != close.map(|p| p.0) {
                    bad.push("close_for or open_for");
                }
            }
            bad
        });
        m.evaluations += 1;
        m.count("symbols_looked_up");
        m.distinct(&x);
        if seen != Ok(vec![]) {
            m.violation(format!("C15:pairs:{:?}", x), json!({"symbol": x.to_string(), "observed": format!("{:?}", seen)}));
        }
    });
    // malformed stays malformed: grouping one complete operand of a broken sequence
    m.cases("broken", 15_000, 200_000, |m, r| {
        let t = table(r);
        let mut lex = any_sequence(r, &t);
        let spots: Vec<usize> = (0..lex.len()).filter(|i| matches!(lex[*i], Lex::Num(_) | Lex::Var(_) | Lex::Const(_))).collect();
        if spots.is_empty() || t.implicit {
            return; // with implicit multiplication a group may legitimately join two operands
        }
        let before = spaced(&lex);
        let (o1, _) = observe(&t, &before);
        let i = *r.pick(&spots);
        // a call's name directly before would make the group its argument list
        if i > 0 && matches!(lex[i - 1], Lex::Fun(_)) {
            return;
        }
        let c = open_kind(r, true);
        lex.insert(i + 1, Lex::Close(match c { '(' => ')', '[' => ']', _ => '}' }));
        lex.insert(i, Lex::Open(c));
        let after = spaced(&lex);
        let (o2, _) = observe(&t, &after);
        m.evaluations += 1;
        m.count(if o1.is_ok() { "wrapped_in_valid" } else { "wrapped_in_invalid" });
        m.distinct(&after);
        if !o1.same_outcome(&o2) {
            m.violation(format!("C15:wrap:{}", after), json!({"plain": before, "grouped": after, "plain_result": o1.show(), "grouped_result": o2.show(), "table": t.describe()}));
        }
    });
    crate::p_real::c15_builtin(m);
}
