//! C05 C06 C13 C16 C18 C24 C26: text, names, registries, histories, errors, ranges, printed results.
use crate::core::*;
use crate::ctxs::*;
use crate::sym::*;
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::decimal::Decimal;
use prexel::error::{Error, ErrorKind};
use prexel::evaluator::Evaluator;
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use prexel::utils::ignore_case_str::{eq_ignore_case, IgnoreCaseStr};
use prexel::utils::ignore_case_string::IgnoreCaseString;
use prexel::utils::splitter::rules::{Outcome, SplitRule, SplitWithOperators};
use prexel::utils::splitter::{rules, DefaultSplitter, DefaultSplitterBuilder, SplitWhitespaceOption, Splitter};
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::iter::Peekable;
use std::str::Chars;

// ---------------------------------------------------------------- C05

const ALPHABET: &[&str] = &[
    "0", "1", "2", "9", "10", "3.5", ".", "..", "1.", "a", "b", "b1", "b10", "x", "foo", "Max", "sin", "mod", "_", "_x", "$", "$r",
    "+", "-", "*", "/", "^", "!", "!!", "=", "==", "<", ">>", "<=", "&", "|", "~", "@", "#", "%", ",", ",,", "(", ")", "[", "]", "{",
    "}", " ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\u{2003}", "\u{3000}", "\u{200b}", "é", "ñ", "π", "∞", "漢", "😀", "\u{301}", "\0",
    "\u{7f}", "\u{85}", "i", "e5", "E", "1e5", "inf", "nan", "'", "\"", "\\", "`", ";", ":", "?", "±", "Σ", "ß", "İ", "K",
];

fn weird(r: &mut Rng, max: usize) -> String {
    let n = r.below(max) + 1;
    let mut s = String::new();
    for _ in 0..n {
        if r.chance(1, 40) {
            loop {
                let v = if r.chance(1, 2) { r.below(0x3000) } else { r.below(0x11_0000) };
                if let Some(c) = char::from_u32(v as u32) {
                    s.push(c);
                    break;
                }
            }
        } else {
            s.push_str(ALPHABET[r.below(ALPHABET.len())]);
        }
    }
    s
}

struct HexRule;
impl SplitRule for HexRule {
    fn split(&self, c: char, rest: &mut Peekable<Chars>) -> Outcome {
        if c.is_ascii_digit() {
            let mut s = c.to_string();
            while let Some(c) = rest.next_if(|c| c.is_ascii_hexdigit()) {
                s.push(c);
            }
            return Outcome::Data(s);
        }
        Outcome::Continue
    }
}
struct DollarRule;
impl SplitRule for DollarRule {
    fn split(&self, c: char, rest: &mut Peekable<Chars>) -> Outcome {
        if c == '$' {
            let mut s = c.to_string();
            while let Some(c) = rest.next_if(|c| c.is_ascii_alphanumeric() || *c == '_') {
                s.push(c);
            }
            return Outcome::Data(s);
        }
        Outcome::Continue
    }
}

/// The pieces must be found one after another in the text, with nothing but (removed) whitespace between.
fn conserved(text: &str, pieces: &[String], keep_ws: bool) -> Option<String> {
    let mut rest = text;
    for p in pieces {
        if p.is_empty() {
            return Some("an empty piece".into());
        }
        if !keep_ws {
            rest = rest.trim_start();
        }
        match rest.strip_prefix(p.as_str()) {
            Some(r) => rest = r,
            None => return Some(format!("piece {:?} is not what follows: {:?}", p, rest)),
        }
    }
    if !keep_ws {
        rest = rest.trim_start();
    }
    if rest.is_empty() {
        None
    } else {
        Some(format!("{:?} was dropped", rest))
    }
}

fn token_text<N: std::fmt::Display>(t: &Token<N>) -> String {
    match t {
        Token::Number(n) => n.to_string(),
        Token::Variable(s) | Token::Constant(s) | Token::Function(s) | Token::UnaryOperator(s) | Token::BinaryOperator(s) | Token::Unknown(s) => s.clone(),
        Token::GroupingOpen(c) | Token::GroupingClose(c) => c.to_string(),
        Token::Comma => ",".into(),
        Token::ArgCount(n) => format!("<argcount {}>", n),
    }
}

type Toks = Result<Vec<Token<Sym>>, ErrorKind>;

fn tokens_of(ctx: &DefaultContext<'static, Sym>, text: &str, keep_ws: bool) -> Result<Toks, String> {
    let t: Tokenizer<Sym> =
        if keep_ws { Tokenizer::with_splitter(DefaultSplitter::new(SplitWhitespaceOption::None)) } else { Tokenizer::new() };
    guard(|| t.tokenize(ctx, text).map_err(|e| e.kind()))
}

fn show_toks(t: &Result<Toks, String>) -> String {
    match t {
        Ok(Ok(v)) => format!("{:?}", v),
        Ok(Err(k)) => format!("Err({:?})", k),
        Err(p) => format!("PANIC({})", p),
    }
}

pub fn c05(m: &mut Mon) {
    let none = || DefaultSplitter::new(SplitWhitespaceOption::None);
    let splitters: Vec<(&str, Box<dyn Splitter>, bool)> = vec![
        ("default", Box::new(DefaultSplitter::default()), false),
        ("remove", Box::new(DefaultSplitter::new(SplitWhitespaceOption::Remove)), false),
        ("none", Box::new(none()), true),
        ("binary", Box::new(binary_number_splitter()), false),
        ("numeric_rule", Box::new(DefaultSplitter::with_numeric_rule(HexRule)), false),
        ("identifier_rule", Box::new(DefaultSplitter::with_identifier_rule(DollarRule)), false),
        (
            "operators",
            Box::new(
                DefaultSplitterBuilder::new()
                    .rule(rules::SplitNumeric)
                    .insert_rule(0, DollarRule)
                    .rule(rules::SplitIdentifier)
                    .rule(SplitWithOperators::builder().except('$').except('.').build())
                    .whitespace(SplitWhitespaceOption::Remove)
                    .build(),
            ),
            false,
        ),
        ("no_rules", Box::new(DefaultSplitter::builder().build()), true),
        ("binary_rule_only", Box::new(DefaultSplitter::builder().rule(rules::SplitBinary).build()), true),
    ];
    m.cases("split", 60_000, 1_000_000, |m, r| {
        let text = match r.below(600) {
            0 => weird(r, 5_000),
            1 => {
                let (a, b) = (weird(r, 2), weird(r, 2));
                a.repeat(1 + r.below(3_000)) + &b
            }
            _ => weird(r, 14),
        };
        let (name, s, keep) = &splitters[r.below(splitters.len())];
        m.evaluations += 1;
        m.distinct(&text);
        match guard(|| s.split_into_tokens(&text)) {
            Err(p) => m.violation(format!("C05:split:{}:{:?}", name, text), json!({"text": text, "splitter": name, "observed": p})),
            Ok(v) => {
                m.add("pieces", v.len() as u64);
                m.sample(|| json!({"text": text, "pieces": v}));
                if let Some(why) = conserved(&text, &v, *keep) {
                    m.violation(format!("C05:split:{}:{:?}", name, text), json!({"text": text, "splitter": name, "pieces": v, "why": why}));
                }
            }
        }
    });
    m.cases("unicode", 40_000, 700_000, |m, r| {
        let implicit = r.chance(1, 2);
        let t = Table::random(r, implicit, false);
        let ctx = t.context();
        let text = if r.chance(1, 2) {
            weird(r, 14)
        } else {
            // a valid expression with foreign text in it
            let size = 1 + r.below(6);
            let a = gen_ast(r, &t, size);
            let (lex, _) = to_lex(r, &t, &a, &Style { redundant: 10, kinds: true, omit_mul: 0 });
            let mut s = join(r, &t, &lex);
            let w = weird(r, 3);
            let mut at = r.below(s.len() + 1);
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            s.insert_str(at, &w);
            s
        };
        let keep = r.chance(1, 4);
        m.evaluations += 1;
        m.distinct(&text);
        let got = tokens_of(&ctx, &text, keep);
        match &got {
            Err(_) => m.violation(format!("C05:panic:{:?}", text), json!({"text": text, "observed": show_toks(&got)})),
            Ok(Err(_)) => m.count("rejected"),
            Ok(Ok(v)) => {
                m.add("tokens", v.len() as u64);
                let pieces: Vec<String> = v.iter().map(token_text).collect();
                if let Some(why) = conserved(&text, &pieces, false) {
                    m.violation(format!("C05:tokens:{:?}", text), json!({"text": text, "table": t.describe(), "tokens": show_toks(&got), "why": why}));
                }
                for k in v {
                    let flags = [
                        k.is_number(),
                        k.is_variable(),
                        k.is_constant(),
                        k.is_function(),
                        k.is_unary_operator(),
                        k.is_binary_operator(),
                        k.is_arg_count(),
                        k.is_grouping_open(),
                        k.is_grouping_close(),
                        k.is_comma(),
                        k.is_unknown(),
                    ];
                    let want = match k {
                        Token::Number(_) => 0,
                        Token::Variable(_) => 1,
                        Token::Constant(_) => 2,
                        Token::Function(_) => 3,
                        Token::UnaryOperator(_) => 4,
                        Token::BinaryOperator(_) => 5,
                        Token::ArgCount(_) => 6,
                        Token::GroupingOpen(_) => 7,
                        Token::GroupingClose(_) => 8,
                        Token::Comma => 9,
                        Token::Unknown(_) => 10,
                    };
                    if flags.iter().filter(|f| **f).count() != 1 || !flags[want] {
                        m.violation(format!("C05:predicates:{}", token_text(k)), json!({"token": format!("{:?}", k), "predicates": format!("{:?}", flags)}));
                    }
                }
            }
        }
    });
    m.cases("layout", 40_000, 600_000, |m, r| {
        let implicit = r.chance(1, 2);
        let t = Table::random(r, implicit, false);
        let ctx = t.context();
        let size = 1 + r.below(14);
        let st = Style { redundant: *r.pick(&[0, 20]), kinds: r.chance(1, 2), omit_mul: if implicit { 70 } else { 0 } };
        let mut lex = match r.below(600) {
            0 => gen_flat(r, &t),
            1 => {
                let a = gen_big(r, &t);
                to_lex(r, &t, &a, &st).0
            }
            _ => {
                let a = gen_ast(r, &t, size);
                to_lex(r, &t, &a, &st).0
            }
        };
        let broken = r.chance(1, 3);
        if broken {
            mutate(r, &t, &mut lex);
            if lex.is_empty() {
                return;
            }
        }
        let texts = [spaced(&lex), join(r, &t, &lex), join(r, &t, &lex)];
        let got: Vec<_> = texts.iter().map(|s| tokens_of(&ctx, s, false)).collect();
        let got_ws = tokens_of(&ctx, &texts[1], true);
        m.evaluations += 4;
        m.distinct(&texts[1]);
        m.count(if broken { "layouts_malformed" } else { "layouts_well_formed" });
        m.sample(|| json!({"layouts": texts, "tokens": show_toks(&got[0])}));
        let sig = format!("C05:layout:{:?}", texts[1]);
        let rep = |why: &str| json!({"texts": texts, "table": t.describe(), "why": why, "tokens": got.iter().map(show_toks).collect::<Vec<_>>()});
        if !broken {
            let want: Result<Toks, String> = Ok(Ok(expected_tokens(&t, &lex)));
            if got[0] != want {
                m.violation(sig, rep(&format!("expected tokens {}", show_toks(&want))));
                return;
            }
        } else if let Ok(Ok(v)) = &got[0] {
            // classes other than operators do not depend on the neighbours
            let want: Vec<String> = lex.iter().map(|l| l.text()).collect();
            let have: Vec<String> = v.iter().map(token_text).collect();
            if want != have {
                m.violation(sig, rep("the units are not the tokens"));
                return;
            }
        }
        if got[1] != got[0] || got[2] != got[0] {
            m.violation(sig, rep("the layout of whitespace changes the tokens"));
        } else if got_ws != got[0] {
            m.violation(sig, rep(&format!("with a splitter keeping whitespace: {}", show_toks(&got_ws))));
        }
    });
    // a unit of any length is one token
    m.cases("units", 1_000, 10_000, |m, r| {
        let n = if r.chance(1, 10) { 1 + r.below(20_000) } else { 1 + r.below(300) };
        let name: String = (0..n).map(|k| if k == 0 { *r.pick(&['a', 'Z', '_']) } else { *r.pick(&['b', '7', '_']) }).collect();
        let point = r.below(2 * n);
        let number: String = (0..n).map(|k| if k == point && k > 0 { '.' } else { (b'1' + r.below(9) as u8) as char }).collect();
        let mut c: DefaultContext<'static, Sym> = DefaultContext::new();
        let which = r.below(3);
        let tag = Sym("1".into());
        let want_name = match which {
            0 => {
                c.set_variable(&name, tag).unwrap();
                Token::Variable(name.clone())
            }
            1 => {
                c.add_constant(&name, tag).unwrap();
                Token::Constant(name.clone())
            }
            _ => Token::Unknown(name.clone()),
        };
        let gap = |r: &mut Rng| " ".repeat(1 + if r.chance(1, 10) { r.below(5_000) } else { 0 });
        let text = format!("{}{}{}({}{}", number, gap(r), name, gap(r), number);
        let want = Ok(Ok(vec![Token::Number(Sym(number.clone())), want_name, Token::GroupingOpen('('), Token::Number(Sym(number.clone()))]));
        let got = tokens_of(&c, &text, r.chance(1, 2));
        m.evaluations += 1;
        m.count("long_units");
        m.distinct(&text);
        let good = if which == 2 { got.as_ref().map_or(false, |g| g.is_err()) || got == want } else { got == want };
        if !good {
            m.violation(format!("C05:units:{}:{}", which, n), json!({"text": text, "tokens": show_toks(&got), "expected": show_toks(&want)}));
        }
    });
    m.cases("priority", 10_000, 150_000, |m, r| {
        // the same word defined in several roles
        let names = ["foo", "inf", "nan", "infinity", "PI", "mod", "x", "A", "e", "_1", "a1", "NaN", "INF"];
        let name = *r.pick(&names);
        let mut c: DefaultContext<'static, f64> = DefaultContext::new();
        let (var, con) = match r.below(3) {
            0 => (true, false),
            1 => (false, true),
            _ => (false, false),
        };
        let (fun, un, bi) = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
        if var {
            c.set_variable(name, 1.0).unwrap();
        }
        if con {
            c.add_constant(name, 2.0).unwrap();
        }
        struct Nop;
        impl Function<f64> for Nop {
            fn name(&self) -> &str {
                "nop"
            }
            fn call(&self, a: &[f64]) -> prexel::Result<f64> {
                Ok(a.len() as f64)
            }
        }
        impl UnaryFunction<f64> for Nop {
            fn name(&self) -> &str {
                "nop"
            }
            fn notation(&self) -> Notation {
                Notation::Prefix
            }
            fn call(&self, a: f64) -> prexel::Result<f64> {
                Ok(a)
            }
        }
        impl BinaryFunction<f64> for Nop {
            fn name(&self) -> &str {
                "nop"
            }
            fn precedence(&self) -> Precedence {
                Precedence(1)
            }
            fn associativity(&self) -> Associativity {
                Associativity::Left
            }
            fn call(&self, a: f64, b: f64) -> prexel::Result<f64> {
                Ok(a + b)
            }
        }
        if fun {
            c.add_function_as(Nop, name).unwrap();
        }
        if un {
            c.add_unary_function_as(Nop, name).unwrap();
        }
        if bi {
            c.add_binary_function_as(Nop, name).unwrap();
        }
        let word = if var { name.to_string() } else { case_mix(r, name) };
        let tk: Tokenizer<f64> = Tokenizer::new();
        // in operand position after an operand, so that an operator is binary if it may be
        let text = format!("7 {} 8", word);
        let got = guard(|| tk.tokenize(&c, &text)).map_err(|p| format!("PANIC {}", p)).and_then(|x| x.map_err(|e| format!("Err {:?}", e.kind())));
        let number = word.parse::<f64>().is_ok();
        let want = if number {
            "Number"
        } else if var {
            "Variable"
        } else if con {
            "Constant"
        } else if fun {
            "Function"
        } else if bi {
            "BinaryOperator"
        } else if un {
            return;
        } else {
            "Unknown"
        };
        m.evaluations += 1;
        m.count(&format!("class_{}", want));
        m.distinct(&(word.clone(), var, con, fun, un, bi));
        let have = match &got {
            Ok(v) if v.len() == 3 => format!("{:?}", v[1]).split('(').next().unwrap().to_string(),
            other => format!("{:?}", other),
        };
        if have != want {
            m.violation(
                format!("C05:class:{}:{}", word, want),
                json!({"text": text, "variable": var, "constant": con, "function": fun, "unary": un, "binary": bi, "expected": want, "observed": have}),
            );
        }
    });
    m.cases("complex", 10_000, 150_000, |m, r| {
        // an `i` directly after a number belongs to it, with any whitespace
        let c: DefaultContext<'static, Complex<f64>> = DefaultContext::with_config_complex(Config::new().with_complex_number(true));
        let tk: Tokenizer<Complex<f64>> = Tokenizer::new();
        let n = 1 + r.below(4);
        let mut parts: Vec<String> = vec![];
        let mut want = vec![];
        for k in 0..n {
            if k > 0 {
                parts.push("+".into());
                want.push(Token::BinaryOperator("+".into()));
            }
            let v = gen_num(r);
            let x: f64 = v.parse().unwrap();
            parts.push(v);
            if r.chance(1, 2) {
                parts.push("i".into());
                want.push(Token::Number(Complex::new(0.0, x)));
            } else {
                want.push(Token::Number(Complex::new(x, 0.0)));
            }
        }
        for ws in ["", " ", "\t ", "\u{a0}\n"] {
            let text = parts.join(ws);
            let got = guard(|| tk.tokenize(&c, &text).map_err(|e| e.kind()));
            m.evaluations += 1;
            m.distinct(&text);
            m.count("complex_layouts");
            if got != Ok(Ok(want.clone())) {
                m.violation(format!("C05:complex:{:?}", text), json!({"text": text, "expected": format!("{:?}", want), "observed": format!("{:?}", got)}));
            }
        }
    });
}

// ---------------------------------------------------------------- C06

const NAMES: &[&str] = &[
    "max", "MAX", "Max", "maximum", "f", "F", "g1", "sin_x", "SIN_X", "+", "-", "plus", "PLUS", "Plus", "mod", "Mod", "!", "==", "ñandu",
    "ÑANDU", "Ñandu", "straße", "STRASSE", "k", "K", "\u{212a}", "σας", "ΣΑΣ", "σασ", "é", "É", "Ǆ", "ǆ", "ǅ", "x", "X", "PI", "pi", "Pi",
    "π", "Π", "İx", "ix", "ıx", "Ix", "_a", "_A", "a1", "A1", "å", "Å", "\u{212b}", "ω", "Ω", "\u{2126}",
];

pub fn key(s: &str) -> Vec<Vec<char>> {
    s.chars().map(|c| c.to_lowercase().collect()).collect()
}

#[derive(Clone)]
struct Tagged {
    name: &'static str,
    aliases: Vec<&'static str>,
    id: usize,
    fix: Fix,
}
impl Tagged {
    fn ali(&self) -> Option<&[&str]> {
        if self.aliases.is_empty() {
            None
        } else {
            Some(&self.aliases)
        }
    }
}
impl Function<i64> for Tagged {
    fn name(&self) -> &str {
        self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.ali()
    }
    fn call(&self, _: &[i64]) -> prexel::Result<i64> {
        Ok(self.id as i64)
    }
}
impl UnaryFunction<i64> for Tagged {
    fn name(&self) -> &str {
        self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.ali()
    }
    fn notation(&self) -> Notation {
        if self.fix == Fix::Post {
            Notation::Postfix
        } else {
            Notation::Prefix
        }
    }
    fn call(&self, _: i64) -> prexel::Result<i64> {
        Ok(self.id as i64)
    }
}
impl BinaryFunction<i64> for Tagged {
    fn name(&self) -> &str {
        self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.ali()
    }
    fn precedence(&self) -> Precedence {
        Precedence(1)
    }
    fn associativity(&self) -> Associativity {
        Associativity::Left
    }
    fn call(&self, _: i64, _: i64) -> prexel::Result<i64> {
        Ok(self.id as i64)
    }
}

type Key = Vec<Vec<char>>;

#[derive(Clone, Default, PartialEq, Debug)]
struct Model {
    fun: BTreeMap<Key, i64>,
    un: BTreeMap<Key, i64>,
    bin: BTreeMap<Key, i64>,
    con: BTreeMap<Key, i64>,
    var: BTreeMap<String, i64>,
}

fn observed_model(c: &DefaultContext<'static, i64>) -> Model {
    Model {
        fun: c.functions().iter().map(|(k, f)| (key(k.as_str()), f.call(&[]).unwrap())).collect(),
        un: c.unary_functions().iter().map(|(k, f)| (key(k.as_str()), f.call(0).unwrap())).collect(),
        bin: c.binary_functions().iter().map(|(k, f)| (key(k.as_str()), f.call(0, 0).unwrap())).collect(),
        con: c.constants().iter().map(|(k, v)| (key(k.as_str()), *v)).collect(),
        var: c.variables().iter().map(|(k, v)| (k.clone(), *v)).collect(),
    }
}

fn sizes(c: &DefaultContext<'static, i64>) -> [usize; 5] {
    [c.functions().len(), c.unary_functions().len(), c.binary_functions().len(), c.constants().len(), c.variables().len()]
}

pub fn c06(m: &mut Mon) {
    m.cases("history", 12_000, 150_000, |m, r| {
        let mut live: Vec<(DefaultContext<'static, i64>, Model)> = vec![(DefaultContext::new(), Model::default())];
        let mut log: Vec<String> = vec![];
        let mut pool: Vec<&'static str> = NAMES.to_vec();
        r.shuffle(&mut pool);
        pool.truncate(4 + r.below(20));
        let steps = 3 + r.below(25);
        let mut next_id = 1;
        for _ in 0..steps {
            let w = r.below(live.len());
            next_id += 1;
            let id = next_id;
            let what = r.below(12);
            let (c, model) = &mut live[w];
            m.evaluations += 1;
            let bad = |log: &[String], why: String| json!({"history": log, "why": why});
            if what < 7 {
                // functions and operators
                let which = r.below(3);
                let own = *r.pick(&pool);
                let mut aliases = vec![];
                for _ in 0..r.below(4) {
                    let a = *r.pick(&pool);
                    aliases.push(a);
                }
                let fix = if r.chance(1, 2) { Fix::Post } else { Fix::Pre };
                let f = Tagged { name: own, aliases: aliases.clone(), id, fix };
                let as_name = if r.chance(1, 3) { Some(*r.pick(&pool)) } else { None };
                let name = as_name.unwrap_or(own);
                log.push(format!("#{} {} {} own={:?} aliases={:?} as={:?}", w, ["function", "unary", "binary"][which], id, own, aliases, as_name));
                let res = guard(|| match (which, as_name) {
                    (0, None) => c.add_function(f),
                    (0, Some(n)) => c.add_function_as(f, n),
                    (1, None) => c.add_unary_function(f),
                    (1, Some(n)) => c.add_unary_function_as(f, n),
                    (_, None) => c.add_binary_function(f),
                    (_, Some(n)) => c.add_binary_function_as(f, n),
                });
                let map = [&mut model.fun, &mut model.un, &mut model.bin].into_iter().nth(which).unwrap();
                let mut all = vec![key(name)];
                all.extend(aliases.iter().map(|a| key(a)));
                let conflict = all.iter().any(|k| map.contains_key(k));
                match res {
                    Err(p) => {
                        m.violation(format!("C06:panic:{:?}", log.last()), bad(&log, p));
                        return;
                    }
                    Ok(res) => {
                        if res.is_ok() == conflict {
                            m.violation(
                                format!("C06:conflict:{}", log.join("|")),
                                bad(&log, format!("a registration {} was {}", if conflict { "with a conflict" } else { "without conflict" }, if res.is_ok() { "accepted" } else { "refused" })),
                            );
                            return;
                        }
                        m.count(if conflict { "conflicts" } else { "registered" });
                        if !conflict {
                            for k in all {
                                map.insert(k, id as i64);
                            }
                        }
                    }
                }
            } else if what < 9 {
                let name = *r.pick(&pool);
                log.push(format!("#{} constant {:?} = {}", w, name, id));
                let res = guard(|| c.add_constant(name, id as i64));
                let conflict = model.var.keys().any(|v| key(v) == key(name));
                match res {
                    Ok(res) if res.is_ok() != conflict => {
                        m.count(if conflict { "constant_conflicts" } else { "constants" });
                        if !conflict {
                            model.con.insert(key(name), id as i64);
                        }
                    }
                    other => {
                        m.violation(format!("C06:constant:{}", log.join("|")), bad(&log, format!("conflict={} result {:?}", conflict, other.map(|r| r.is_ok()))));
                        return;
                    }
                }
            } else if what < 11 {
                let name = *r.pick(&pool);
                log.push(format!("#{} variable {:?} = {}", w, name, id));
                let res = guard(|| c.set_variable(name, id as i64));
                let conflict = model.con.contains_key(&key(name));
                let prev = model.var.get(name).copied();
                let good = match &res {
                    Ok(Ok(p)) => !conflict && *p == prev,
                    Ok(Err(_)) => conflict,
                    Err(_) => false,
                };
                if !good {
                    m.violation(
                        format!("C06:variable:{}", log.join("|")),
                        bad(&log, format!("conflict={} previous={:?} result {:?}", conflict, prev, res.map(|r| r.map_err(|e| e.kind())))),
                    );
                    return;
                }
                m.count(if conflict { "variable_conflicts" } else { "variables" });
                if !conflict {
                    model.var.insert(name.to_string(), id as i64);
                }
            } else if live.len() < 4 {
                log.push(format!("#{} cloned to #{}", w, live.len()));
                let copy = (live[w].0.clone(), live[w].1.clone());
                live.push(copy);
                m.count("clones");
            }
            // every context must be exactly its model: listed, and looked up
            for (n, (c, model)) in live.iter().enumerate() {
                let got = observed_model(c);
                if got != *model || sizes(c) != [model.fun.len(), model.un.len(), model.bin.len(), model.con.len(), model.var.len()] {
                    m.violation(
                        format!("C06:state:{}", log.join("|")),
                        json!({"history": log, "context": n, "expected": format!("{:?}", model), "observed": format!("{:?} sizes {:?}", got, sizes(c))}),
                    );
                    return;
                }
            }
            let (c, model) = &live[r.below(live.len())];
            for _ in 0..6 {
                let base = *r.pick(&pool);
                let q: String = match r.below(4) {
                    0 => base.to_string(),
                    1 => base.chars().flat_map(|c| c.to_lowercase()).collect(),
                    2 => base.chars().map(|c| { let u: Vec<char> = c.to_uppercase().collect(); if u.len() == 1 { u[0] } else { c } }).collect(),
                    _ => NAMES[r.below(NAMES.len())].to_string(),
                };
                // a dotted capital has two lower case letters: leave it to exact spelling
                let k = key(&q);
                let looked = [
                    (model.fun.get(&k).copied(), c.get_function(&q).map(|f| f.call(&[]).unwrap()), c.is_function(&q)),
                    (model.un.get(&k).copied(), c.get_unary_function(&q).map(|f| f.call(0).unwrap()), c.is_unary_function(&q)),
                    (model.bin.get(&k).copied(), c.get_binary_function(&q).map(|f| f.call(0, 0).unwrap()), c.is_binary_function(&q)),
                    (model.con.get(&k).copied(), c.get_constant(&q).copied(), c.is_constant(&q)),
                    (model.var.get(&q).copied(), c.get_variable(&q).copied(), c.is_variable(&q)),
                ];
                m.count("lookups");
                for (i, (want, got, is)) in looked.iter().enumerate() {
                    if want.is_some() {
                        m.count("lookups_hit");
                    }
                    if want != got || got.is_some() != *is {
                        m.violation(
                            format!("C06:lookup:{}:{}", q, log.join("|")),
                            json!({"history": log, "name": q, "registry": (["function", "unary", "binary", "constant", "variable"][i]), "expected": want, "observed": got, "is": is}),
                        );
                        return;
                    }
                }
            }
        }
        m.distinct(&log);
        m.sample(|| json!({"history": log}));
    });
    // many definitions at once
    m.cases("many", 12, 120, |m, r| {
        let most = if r.chance(1, 12) { 2_000 } else { 300 };
        let n = 20 + r.below(most);
        let mut c: DefaultContext<'static, i64> = DefaultContext::new();
        let mut model = Model::default();
        let long = "n".repeat(40 + r.below(400));
        let common: &str = *r.pick(&["", "v", "Name_", "ñ", &long]);
        let n = if common.len() > 40 { n.min(60) } else { n };
        for k in 0..n {
            let id = r.below(n);
            let name = format!("{}q{}", common, id);
            let free = |map: &BTreeMap<Key, i64>| !map.contains_key(&key(&name));
            let which = r.below(5);
            let text: &'static str = Box::leak(name.clone().into_boxed_str());
            let f = Tagged { name: text, aliases: vec![], id: k, fix: Fix::Pre };
            let v = k as i64;
            let other_var = model.var.contains_key(&name);
            let (good, map) = match which {
                0 => (c.add_function(f).is_ok() == free(&model.fun), &mut model.fun),
                1 => (c.add_unary_function(f).is_ok() == free(&model.un), &mut model.un),
                2 => (c.add_binary_function(f).is_ok() == free(&model.bin), &mut model.bin),
                3 => {
                    let good = c.add_constant(text, v).is_ok() != other_var;
                    if !other_var {
                        model.con.insert(key(&name), v);
                    }
                    (good, &mut model.con)
                }
                _ => {
                    let taken = model.con.contains_key(&key(&name));
                    let had = model.var.get(&name).copied();
                    let got = c.set_variable(text, v);
                    let good = if taken { got.is_err() } else { got == Ok(had) };
                    if !taken {
                        model.var.insert(name.clone(), v);
                    }
                    (good, &mut model.con)
                }
            };
            if which < 3 {
                map.entry(key(&name)).or_insert(v);
            }
            m.evaluations += 1;
            if !good {
                m.violation(format!("C06:many:{}:{}", which, k), json!({"registry": which, "name": name, "definitions": k, "why": "accepted or refused wrongly"}));
                return;
            }
        }
        let copy = c.clone();
        for c in [&c, &copy] {
            let upper: Vec<String> = (0..n).map(|k| format!("{}Q{}", common, k)).collect();
            let found = upper.iter().all(|u| {
                let k = key(u);
                m.count("lookups_among_many");
                c.get_function(u).map(|f| f.call(&[]).unwrap()) == model.fun.get(&k).copied()
                    && c.get_unary_function(u).map(|f| f.call(0).unwrap()) == model.un.get(&k).copied()
                    && c.get_binary_function(u).map(|f| f.call(0, 0).unwrap()) == model.bin.get(&k).copied()
                    && c.get_constant(u).copied() == model.con.get(&k).copied()
                    && !c.is_variable(u)
                    && c.get_variable(&format!("{}q{}", common, &u[common.len() + 1..])).copied() == model.var.get(&format!("{}q{}", common, &u[common.len() + 1..])).copied()
            });
            if !found || observed_model(c) != model {
                m.violation(format!("C06:many:{}", n), json!({"definitions": n, "why": "a definition is not found, or another one is", "observed": format!("{:?}", sizes(c))}));
                return;
            }
        }
        m.distinct(&(n, common, model.var.len()));
    });
    // every built-in definition is found under any case, and cannot be registered twice
    m.cases("builtin", 600, 6_000, |m, r| {
        let mut c: DefaultContext<'static, i64> = DefaultContext::new_checked();
        let names: Vec<(usize, String)> = c
            .functions()
            .keys()
            .map(|k| (0, k.to_string()))
            .chain(c.unary_functions().keys().map(|k| (1, k.to_string())))
            .chain(c.binary_functions().keys().map(|k| (2, k.to_string())))
            .chain(c.constants().keys().map(|k| (3, k.to_string())))
            .collect();
        let mut sorted = names.clone();
        sorted.sort();
        let (which, name) = r.pick(&sorted).clone();
        let q = case_mix(r, &name);
        let before = sizes(&c);
        let leaked: &'static str = Box::leak(q.clone().into_boxed_str());
        let f = Tagged { name: "other_name", aliases: vec!["another_alias", leaked], id: 1, fix: Fix::Pre };
        let (found, refused) = match which {
            0 => (c.is_function(&q), c.add_function(f).is_err()),
            1 => (c.is_unary_function(&q), c.add_unary_function(f).is_err()),
            2 => (c.is_binary_function(&q), c.add_binary_function(f).is_err()),
            _ => (c.is_constant(&q), c.set_variable(&q, 3).is_err()),
        };
        m.evaluations += 1;
        m.distinct(&q);
        if !found || !refused || sizes(&c) != before {
            m.violation(format!("C06:builtin:{}", q), json!({"name": q, "found": found, "refused": refused, "before": before, "after": sizes(&c)}));
        }
    });
    // names that no text could spell are refused where the library checks them; any other name is taken
    m.cases("names", 4_000, 40_000, |m, r| {
        const BAD: &[&str] = &["", " ", "\t", "\n", "\u{a0}", "\u{3000}", "\0", "\u{7f}", "\u{85}", "\u{1b}", "\r\n", "\u{2028}"];
        const PART: &[&str] = &["a", "B", "\u{e9}", "_", "$", "+", "(", "1", "\u{200b}", "\u{1f600}", ".", "\u{301}", "x"];
        let mut name: String = (0..r.below(4)).map(|_| *r.pick(PART)).collect();
        let wrong = r.chance(1, 2);
        if wrong || name.is_empty() {
            let at = r.below(name.chars().count() + 1);
            let byte = name.char_indices().nth(at).map(|x| x.0).unwrap_or(name.len());
            name.insert_str(byte, *r.pick(BAD));
        }
        let invalid = name.is_empty() || name.chars().any(|c| c.is_whitespace() || c.is_control());
        let leaked: &'static str = Box::leak(name.clone().into_boxed_str());
        let mut c: DefaultContext<'static, i64> = DefaultContext::new();
        let own = r.chance(1, 2);
        let f = Tagged { name: if own { leaked } else { "own" }, aliases: if r.chance(1, 2) { vec!["alias"] } else { vec![] }, id: 1, fix: Fix::Pre };
        let which = r.below(5);
        let res = guard(|| match (which, own) {
            (0, true) => c.add_function(f).is_ok(),
            (0, false) => c.add_function_as(f, leaked).is_ok(),
            (1, true) => c.add_unary_function(f).is_ok(),
            (1, false) => c.add_unary_function_as(f, leaked).is_ok(),
            (2, true) => c.add_binary_function(f).is_ok(),
            (2, false) => c.add_binary_function_as(f, leaked).is_ok(),
            (3, _) => c.add_constant(leaked, 1).is_ok(),
            (_, _) => c.set_variable(leaked, 1).is_ok(),
        });
        m.evaluations += 1;
        m.count(if invalid { "names_refused" } else { "names_taken" });
        m.distinct(&(&name, which, own));
        let held = match which {
            0 => c.is_function(&name),
            1 => c.is_unary_function(&name),
            2 => c.is_binary_function(&name),
            3 => c.is_constant(&name),
            _ => c.is_variable(&name),
        };
        let empty = sizes(&c) == [0; 5];
        // without debug assertions the names are taken as they are
        let good = match res {
            Err(_) => false,
            Ok(ok) if invalid && cfg!(debug_assertions) => !ok && empty && !held,
            Ok(ok) => if ok { held && !empty } else { invalid && empty },
        };
        if !good {
            m.violation(format!("C06:name:{}:{:?}", which, name), json!({"registry": which, "name": name, "invalid": invalid, "result": format!("{:?}", res), "held": held, "sizes": sizes(&c)}));
        }
    });
}

// ---------------------------------------------------------------- C13

trait Hist {
    fn set(&mut self, k: &str, v: &str) -> bool;
    fn eval(&self, t: &str) -> Out;
    fn copy(&self) -> Box<dyn Hist>;
    fn vars(&self) -> BTreeMap<String, String>;
    fn rest(&self) -> [usize; 4];
    /// The value of a variable, and the text of a literal's value, as printed.
    fn read(&self, k: &str) -> Option<String>;
    fn shown(&self, v: &str) -> String;
}
struct H<N: 'static>(Evaluator<'static, N>, fn(DefaultContext<'static, N>) -> Evaluator<'static, N>);
impl<N> Hist for H<N>
where
    N: std::str::FromStr + std::fmt::Debug + std::fmt::Display + Clone + 'static,
{
    fn set(&mut self, k: &str, v: &str) -> bool {
        match N::from_str(v) {
            Ok(n) => self.0.mut_context().set_variable(k, n).is_ok(),
            Err(_) => panic!("literal {}", v),
        }
    }
    fn eval(&self, t: &str) -> Out {
        Out::of(guard(|| self.0.eval(t)))
    }
    fn copy(&self) -> Box<dyn Hist> {
        Box::new(H((self.1)(self.0.context().clone()), self.1))
    }
    fn vars(&self) -> BTreeMap<String, String> {
        self.0.context().variables().iter().map(|(k, v)| (k.clone(), v.to_string())).collect()
    }
    fn read(&self, k: &str) -> Option<String> {
        self.0.context().get_variable(k).map(|v| v.to_string())
    }
    fn shown(&self, v: &str) -> String {
        N::from_str(v).map(|n| n.to_string()).unwrap_or_default()
    }
    fn rest(&self) -> [usize; 4] {
        let c = self.0.context();
        [c.functions().len(), c.unary_functions().len(), c.binary_functions().len(), c.constants().len()]
    }
}
fn plain_ev<N: std::str::FromStr + std::fmt::Debug + Clone>(c: DefaultContext<'static, N>) -> Evaluator<'static, N> {
    Evaluator::with_context(c)
}
fn bin_ev(c: DefaultContext<'static, Binary>) -> Evaluator<'static, Binary> {
    Evaluator::with_context_and_tokenizer(c, Tokenizer::with_splitter(binary_number_splitter()))
}

fn hist(kind: &str, cfg: Cfg) -> Box<dyn Hist> {
    let c = config(cfg);
    match kind {
        "f64c" => Box::new(H(plain_ev::<f64>(DefaultContext::with_config_checked(c)), plain_ev)),
        "f64u" => Box::new(H(plain_ev::<f64>(DefaultContext::with_config_unchecked(c)), plain_ev)),
        "i32" => Box::new(H(plain_ev::<i32>(DefaultContext::with_config_checked(c)), plain_ev)),
        "i64" => Box::new(H(plain_ev::<i64>(DefaultContext::with_config_checked(c)), plain_ev)),
        "dec" => Box::new(H(plain_ev::<Decimal>(DefaultContext::with_config_decimal(c)), plain_ev)),
        "cplx" => Box::new(H(plain_ev::<Complex<f64>>(DefaultContext::with_config_complex(c)), plain_ev)),
        "bin" => Box::new(H(bin_ev(DefaultContext::with_config_binary(c)), bin_ev)),
        _ => panic!(),
    }
}

pub fn c13(m: &mut Mon) {
    // recorded calls over random tables: repeated and interleaved evaluation
    m.cases("repeat", 6_000, 80_000, |m, r| {
        let implicit = r.chance(1, 2);
        let t = Table::random(r, implicit, false);
        let mut evs = vec![t.evaluator()];
        let mut models: Vec<BTreeMap<String, String>> = vec![t.vars.iter().map(|v| (v.to_string(), format!("v:{}", v))).collect()];
        let mut texts: Vec<String> = vec![];
        for _ in 0..4 {
            let size = 1 + r.below(8);
            let a = gen_ast(r, &t, size);
            let (mut lex, _) = to_lex(r, &t, &a, &Style { redundant: 10, kinds: true, omit_mul: if implicit { 50 } else { 0 } });
            if r.chance(1, 4) {
                mutate(r, &t, &mut lex);
            }
            texts.push(if lex.is_empty() { " ".into() } else { join(r, &t, &lex) });
        }
        let mut hist = vec![];
        for _ in 0..12 {
            let w = r.below(evs.len());
            match r.below(6) {
                0 => {
                    let name = *r.pick(&["x", "X", "foo", "Foo", "new1", "PI", "pi", "E", "e"]);
                    let v = format!("w{}", r.below(100));
                    let conflict = t.consts.iter().any(|k| lower(k) == lower(name));
                    let got = evs[w].mut_context().set_variable(name, Sym(v.clone()));
                    hist.push(format!("#{} {} = {}", w, name, v));
                    let want = models[w].get(name).cloned();
                    let ok = match &got {
                        Ok(p) => !conflict && p.as_ref().map(|s| s.0.clone()) == want,
                        Err(_) => conflict,
                    };
                    if !ok {
                        m.violation(format!("C13:assign:{}", name), json!({"history": hist, "table": t.describe(), "observed": format!("{:?}", got.map_err(|e| e.kind()))}));
                        return;
                    }
                    if !conflict {
                        models[w].insert(name.into(), v);
                    }
                    m.count("assignments");
                }
                1 if evs.len() < 3 => {
                    let c = evs[w].context().clone();
                    evs.push(Evaluator::with_context(c));
                    let md = models[w].clone();
                    models.push(md);
                    hist.push(format!("#{} cloned", w));
                    m.count("clones");
                }
                _ => {
                    let text = if r.chance(1, 5) { "x + foo * X".replace("+", t.bin("*").map(|o| o.name).unwrap()) } else { r.pick(&texts).clone() };
                    let fail = if r.chance(1, 4) { Some((r.below(3), ErrorKind::Unknown, "injected".to_string())) } else { None };
                    // a fresh evaluator with the same definitions
                    let mut fresh = t.evaluator();
                    for (k, v) in &models[w] {
                        fresh.mut_context().set_variable(k, Sym(v.clone())).unwrap();
                    }
                    trace_reset(fail.clone());
                    let a = Out::of(guard(|| fresh.eval(&text)));
                    let ta = trace_take();
                    trace_reset(fail.clone());
                    let b = Out::of(guard(|| evs[w].eval(&text)));
                    let tb = trace_take();
                    trace_reset(fail);
                    let c = Out::of(guard(|| evs[w].eval(&text)));
                    let tc = trace_take();
                    hist.push(format!("#{} eval {:?} -> {}", w, text, b.show()));
                    m.evaluations += 1;
                    m.count(if b.is_ok() { "evaluated" } else { "evaluated_failing" });
                    if a != b || b != c || ta != tb || tb != tc {
                        m.violation(
                            format!("C13:repeat:{}", text),
                            json!({"history": hist, "table": t.describe(), "fresh": a.show(), "first": b.show(), "again": c.show()}),
                        );
                        return;
                    }
                }
            }
            for (i, e) in evs.iter().enumerate() {
                let got: BTreeMap<String, String> = e.context().variables().iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
                let fresh = t.context();
                // every spelling reads as its own value, whatever other spellings there are
                let spelled = ["x", "X", "y", "Y", "foo", "Foo", "FOO", "bar", "Bar", "new1", "New1", "PI", "pi", "Tau", "e", "x1", "X1", ""]
                    .iter()
                    .all(|k| {
                        m.count("spellings_read");
                        e.context().get_variable(k).map(|s| &s.0) == models[i].get(*k) && e.context().is_variable(k) == models[i].contains_key(*k)
                    });
                let same = spelled
                    && got == models[i]
                    && e.context().constants().len() == fresh.constants().len()
                    && e.context().functions().len() == fresh.functions().len()
                    && e.context().unary_functions().len() == fresh.unary_functions().len()
                    && e.context().binary_functions().len() == fresh.binary_functions().len()
                    && t.consts.iter().all(|k| e.context().get_constant(k).map(|s| s.0.clone()) == Some(format!("k:{}", k)));
                if !same {
                    m.violation(
                        format!("C13:state:{}", hist.join("|")),
                        json!({"history": hist, "evaluator": i, "expected": models[i], "observed": got}),
                    );
                    return;
                }
            }
        }
        m.distinct(&hist);
        m.sample(|| json!({"history": hist}));
    });
    // a long life: the thousandth evaluation is like the first, among many variables
    m.cases("long", 10, 100, |m, r| {
        let implicit = r.chance(1, 2);
        let t = Table::random(r, implicit, false);
        let mut ev = t.evaluator();
        let mut texts: Vec<String> = vec!["(".into(), "x1 x1".into(), "".into()];
        for k in 0..5 {
            let a = if k == 0 { gen_big(r, &t) } else { gen_ast(r, &t, 3 * k) };
            let (lex, _) = to_lex(r, &t, &a, &Style { redundant: 10, kinds: true, omit_mul: 0 });
            texts.push(join(r, &t, &lex));
        }
        let first: Vec<Out> = texts.iter().map(|x| Out::of(guard(|| ev.eval(x)))).collect();
        trace_take();
        let most = if r.chance(1, 6) { 6_000 } else { 1_500 };
        let n = 200 + r.below(most);
        let mut own: BTreeMap<String, String> = BTreeMap::new();
        for k in 0..n {
            let i = r.below(texts.len());
            if r.chance(1, 3) {
                let name = format!("many_{}", r.below(n));
                let got = ev.mut_context().set_variable(&name, Sym(format!("w{}", k)));
                let had = own.insert(name.clone(), format!("w{}", k));
                if got.map(|o| o.map(|s| s.0)) != Ok(had) {
                    m.violation(format!("C13:long:{}", name), json!({"name": name, "evaluations": k, "why": "another earlier value"}));
                    return;
                }
            }
            trace_reset(None);
            let o = Out::of(guard(|| ev.eval(&texts[i])));
            trace_take();
            m.evaluations += 1;
            if o != first[i] {
                m.violation(format!("C13:long:{}", texts[i]), json!({"expression": texts[i], "evaluations": k, "variables": own.len(), "first": first[i].show(), "now": o.show(), "table": t.describe()}));
                return;
            }
        }
        m.count("long_lives");
        let read = own.iter().all(|(k, v)| ev.context().get_variable(k).map(|s| &s.0) == Some(v) && Out::of(guard(|| ev.eval(k))) == Out::Ok(v.clone()));
        trace_take();
        if !read || ev.context().variables().len() != own.len() + t.vars.len() {
            m.violation(format!("C13:long:variables:{}", own.len()), json!({"variables": own.len(), "why": "a variable does not read as it was set"}));
        }
        m.distinct(&texts);
    });
    // the built-in contexts
    m.cases("builtin", 3_000, 40_000, |m, r| {
        let kind = *r.pick(&["f64c", "f64u", "i32", "i64", "dec", "cplx", "bin"]);
        let cfg = Cfg { implicit: r.chance(1, 2), custom_call: false, complex: kind == "cplx" };
        let mut live = vec![hist(kind, cfg)];
        let start = live[0].rest();
        let mut models: Vec<BTreeMap<String, String>> = vec![BTreeMap::new()];
        let mut log = vec![];
        let exprs: &[&str] = if kind == "bin" {
            &["x & y", "x | 3", "~x", "x << 2", "x << 200", "", "x == y", "zz", "(x", "x xor Y", "b101 ^ x", "not y"]
        } else {
            &[
                "x + y", "x * 2 - Y", "1 / 0", "x / y", "", "(x", "zz", "sum(x, y, 3)", "sin(1, 2)", "x ^ 2", "-x", "max(x, y)", "x mod y", "avg(x, 4)",
                "9 ^ 9 ^ 9", "sqrt(x)", "(y + 1) * (x - 2)", "PI", "X", "2 x",
            ]
        };
        for _ in 0..10 {
            let w = r.below(live.len());
            match r.below(5) {
                0 | 1 => {
                    let k = *r.pick(&["x", "y", "X", "Y", "x"]);
                    let v = if kind == "bin" { format!("b{:b}", r.below(1 << 20)) } else { r.below(100).to_string() };
                    if !live[w].set(k, &v) {
                        m.violation(format!("C13:set:{}:{}", kind, k), json!({"kind": kind, "history": log}));
                        return;
                    }
                    models[w].insert(k.into(), v.clone());
                    log.push(format!("#{} {} = {}", w, k, v));
                }
                2 if live.len() < 3 => {
                    let c = live[w].copy();
                    live.push(c);
                    let md = models[w].clone();
                    models.push(md);
                    log.push(format!("#{} cloned", w));
                }
                _ => {
                    let e = *r.pick(exprs);
                    let mut fresh = hist(kind, cfg);
                    for (k, v) in &models[w] {
                        fresh.set(k, v);
                    }
                    let (a, b) = (fresh.eval(e), live[w].eval(e));
                    log.push(format!("#{} {} -> {}", w, e, b.show()));
                    m.evaluations += 1;
                    m.count(&format!("builtin_{}", kind));
                    if a != b {
                        m.violation(format!("C13:{}:{}", kind, log.join("|")), json!({"kind": kind, "history": log, "fresh": a.show(), "observed": b.show()}));
                        return;
                    }
                }
            }
            for (i, e) in live.iter().enumerate() {
                let names: HashSet<&String> = models[i].keys().collect();
                let got = e.vars();
                let mut wrong = vec![];
                for k in ["x", "y", "X", "Y", "zz"] {
                    let want = models[i].get(k).map(|v| e.shown(v));
                    if e.read(k) != want || got.get(k) != want.as_ref() {
                        wrong.push(format!("{} reads {:?}, expected {:?}", k, e.read(k), want));
                    }
                    // as an expression of its own
                    let (a, b) = (e.eval(k), models[i].get(k).map(|v| e.eval(v)));
                    m.count("names_evaluated");
                    if b.as_ref().map_or(a.is_ok(), |b| a != *b) {
                        wrong.push(format!("{} evaluates to {}", k, a.show()));
                    }
                }
                if !wrong.is_empty() {
                    m.violation(format!("C13:{}:read:{}", kind, log.join("|")), json!({"kind": kind, "history": log, "wrong": wrong, "expected": models[i]}));
                    return;
                }
                if got.keys().collect::<HashSet<_>>() != names || e.rest() != start {
                    m.violation(format!("C13:{}:state:{}", kind, log.join("|")), json!({"kind": kind, "history": log, "variables": got, "expected": models[i]}));
                    return;
                }
            }
        }
        m.distinct(&(kind, log.clone()));
    });
}

// ---------------------------------------------------------------- C16

const ALL_KINDS: &[ErrorKind] = &[
    ErrorKind::Overflow,
    ErrorKind::Zero,
    ErrorKind::NAN,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidArgumentCount,
    ErrorKind::DivisionByZero,
    ErrorKind::NegativeValue,
    ErrorKind::PositiveValue,
    ErrorKind::InvalidExpression,
    ErrorKind::Empty,
    ErrorKind::Unknown,
];

/// (minimum, maximum) argument counts of the built-in functions.
fn arities(name: &str) -> (usize, usize) {
    match name {
        "sum" | "product" | "avg" => (1, usize::MAX),
        "max" | "min" => (1, usize::MAX), // whether one argument is enough is not specified
        "log" | "atan" => (1, 2),
        "random" => (0, 2),
        _ => (1, 1),
    }
}

pub fn c16(m: &mut Mon) {
    const NUM: &[&str] = &["f64c", "f64u", "f32c", "f32u", "i8", "i16", "i32", "i64", "i128", "isize", "dec", "cplx", "cplx32"];
    m.cases("kinds", 20_000, 300_000, |m, r| {
        let kind = if r.chance(1, 8) { "bin" } else { *r.pick(NUM) };
        let cfg = Cfg { implicit: r.chance(1, 2), custom_call: false, complex: kind.starts_with("cplx") };
        let float = kind.starts_with('f');
        let cplx = kind.starts_with("cplx");
        let int = kind.starts_with('i');
        let small = |r: &mut Rng| (1 + r.below(9)).to_string();
        let zero = |r: &mut Rng| match r.below(5) {
            0 => "(3 - 3)".to_string(),
            1 => "(0 * 7)".to_string(),
            2 => "zero".to_string(),
            3 if kind == "dec" || float => "0.0".to_string(),
            _ => "0".to_string(),
        };
        // (text, kind) pairs that fail for one specified reason
        let (mut text, want): (String, ErrorKind) = if kind == "bin" {
            match r.below(4) {
                0 => (r.pick(&["", " ", "\t\n", "\u{a0}"]).to_string(), ErrorKind::Empty),
                1 => (format!("b1 {} {}", r.pick(&["<<", ">>", "shl", "shr", "SHL"]), r.pick(&["128", "129", "200", "99999999999", "(~0)", "(~6)"])), ErrorKind::Overflow),
                2 => (format!("b101 & {}", r.pick(&["foo", "b2x", "nope", "_q", "@", "5 $ 6"])), ErrorKind::InvalidInput),
                _ => (format!("{} | {}", r.pick(&["foo", "nope", "Bar"]), small(r)), ErrorKind::InvalidInput),
            }
        } else {
            match r.below(8) {
                0 => (r.pick(&["", " ", "\t\n", "\u{a0}", "   \r\n "]).to_string(), ErrorKind::Empty),
                1 => {
                    let n = *r.pick(&["foo", "nope", "$", "\\", "é", "_q", "sin2", "@", "漢字"]);
                    (
                        match r.below(4) {
                            0 => n.to_string(),
                            1 => format!("{} + {}", small(r), n),
                            2 => format!("{} * ({} - {})", n, small(r), small(r)),
                            _ => format!("sum({}, {})", small(r), n),
                        },
                        ErrorKind::InvalidInput,
                    )
                }
                2 => (format!("{}({})", r.pick(&["foo", "nope", "sinn", "Max_"]), small(r)), ErrorKind::InvalidInput),
                3 | 4 => (format!("{} {} {}", if r.chance(1, 4) { zero(r) } else { small(r) }, r.pick(&["/", "mod", "MOD"]), zero(r)), ErrorKind::DivisionByZero),
                5 if !cplx => {
                    let n = small(r);
                    (
                        match r.below(3) {
                            0 => format!("(-{})!", n),
                            1 => format!("-{}!", n),
                            _ => format!("(2 - {})!", 3 + r.below(40)),
                        },
                        ErrorKind::NegativeValue,
                    )
                }
                6 => {
                    let l = crate::ctxs::listing(kind);
                    let names: Vec<String> = l["functions"].as_array().unwrap().iter().map(|f| f["name"].as_str().unwrap().to_string()).collect();
                    let mut names = names;
                    names.sort();
                    let f = r.pick(&names).clone();
                    let (lo, hi) = arities(&f.to_lowercase());
                    let n = if lo > 0 && r.chance(1, 3) {
                        0
                    } else if hi < 9 {
                        hi + 1 + r.below(3)
                    } else if lo > 0 {
                        0
                    } else {
                        return;
                    };
                    let args: Vec<String> = (0..n).map(|_| "1".to_string()).collect();
                    m.count("wrong_argument_counts");
                    m.distinct(&(kind, f.clone(), n));
                    (format!("{}({})", case_mix(r, &f), args.join(", ")), ErrorKind::InvalidArgumentCount)
                }
                _ if int || kind == "dec" => {
                    // out of range
                    let big = match kind {
                        "i8" => "127",
                        "i16" => "32767",
                        "i32" => "2147483647",
                        "i64" | "isize" => "9223372036854775807",
                        "i128" => "170141183460469231731687303715884105727",
                        _ => "79228162514264337593543950335",
                    };
                    (
                        match r.below(9) {
                            0 => format!("{} + 1", big),
                            1 => format!("-{} - 2", big),
                            2 => format!("{} * 2", big),
                            3 => format!("{} ^ 2", big),
                            4 => format!("{}!", if int { "60" } else { "40" }),
                            5 => format!("sum({}, 1)", big),
                            6 => format!("product({}, 3)", big),
                            7 => format!("avg({}, 1, 2)", big),
                            _ if int => format!("(-{} - 1) / (-1)", big),
                            _ => format!("{} + {}", big, big),
                        },
                        ErrorKind::Overflow,
                    )
                }
                _ => return,
            }
        };
        // embed it where it is reached first, and only once something has to be computed
        if !text.trim().is_empty() && r.chance(1, 2) {
            text = match (kind, r.below(5)) {
                ("bin", 0) => format!("({}) & b1", text),
                ("bin", _) => format!("~({})", text),
                (_, 0) => format!("1 + ({})", text),
                (_, 1) => format!("({}) * 2 - 1", text),
                (_, 2) => format!("sum(1, ({}), 2)", text),
                (_, 3) => format!("-({})", text),
                _ => format!("sqrt({})", text),
            };
        }
        let vars = [("zero".to_string(), "0".to_string())];
        let o = eval1(kind, cfg, &vars, &text);
        m.evaluations += 1;
        m.count(&format!("expected_{:?}", want));
        m.distinct(&(kind, text.clone()));
        m.sample(|| json!({"kind": kind, "expression": text, "outcome": o.show()}));
        let good = match &o {
            Out::Err(k, msg) => *k == want && !msg.is_empty(),
            _ => false,
        };
        if !good {
            m.violation(format!("C16:{}:{}", kind, text), json!({"kind": kind, "expression": text, "expected": format!("{:?}", want), "observed": o.show()}));
        }
    });
    // an error raised by a registered operation arrives unchanged
    m.cases("raised", 15_000, 250_000, |m, r| {
        let implicit = r.chance(1, 2);
        let t = Table::random(r, implicit, false);
        let size = 2 + r.below(12);
        let a = gen_ast(r, &t, size);
        let mut calls = vec![];
        a.value(&t, &mut calls);
        if calls.is_empty() {
            return;
        }
        let (lex, _) = to_lex(r, &t, &a, &Style { redundant: 10, kinds: true, omit_mul: if implicit { 50 } else { 0 } });
        let text = join(r, &t, &lex);
        let k = r.below(calls.len());
        let kind = *r.pick(ALL_KINDS);
        let msg = r.pick(&["", "boom", "división entre cero", "Value has overflow", "line\nbreak"]).to_string();
        trace_reset(Some((k, kind, msg.clone())));
        let ev = t.evaluator();
        let o = Out::of(guard(|| ev.eval(&text)));
        let seen = trace_take();
        m.evaluations += 1;
        m.count(&format!("raised_{:?}", kind));
        m.distinct(&(text.clone(), k));
        if o != Out::Err(kind, msg.clone()) || seen.len() != k + 1 {
            m.violation(
                format!("C16:raised:{}", text),
                json!({"expression": text, "table": t.describe(), "raised": format!("{:?} {:?} by call {}", kind, msg, k), "observed": o.show(), "calls_made": seen.len()}),
            );
        }
    });
    // a name nobody defined, among the tokens of a list that is otherwise well formed
    m.cases("names", 6_000, 100_000, |m, r| {
        let implicit = r.chance(1, 2);
        let t = Table::random(r, implicit, false);
        let size = 1 + r.below(12);
        let a = gen_ast(r, &t, size);
        let (lex, _) = to_lex(r, &t, &a, &Style { redundant: 10, kinds: true, omit_mul: if implicit { 50 } else { 0 } });
        let mut toks = expected_tokens(&t, &lex);
        let k = r.below(toks.len());
        let n = "nobody_knows".to_string();
        toks[k] = match &toks[k] {
            Token::Variable(_) => Token::Variable(n),
            // (a number before a name may be a product, a name before it may not)
            Token::Number(_) if implicit => return,
            Token::Number(_) | Token::Constant(_) if r.chance(1, 2) => Token::Constant(n),
            Token::Number(_) | Token::Constant(_) => Token::Variable(n),
            Token::Function(_) => Token::Function(n),
            Token::BinaryOperator(_) => Token::BinaryOperator(n),
            Token::UnaryOperator(_) => Token::UnaryOperator(n),
            _ => return,
        };
        trace_reset(None);
        let ev = t.evaluator();
        let o = Out::of(guard(|| ev.eval_tokens(&toks)));
        trace_take();
        m.evaluations += 1;
        m.count("unknown_names_in_tokens");
        m.distinct(&format!("{:?}", toks));
        if !matches!(&o, Out::Err(ErrorKind::InvalidInput, msg) if !msg.is_empty()) {
            m.violation(format!("C16:names:{:?}", toks), json!({"tokens": format!("{:?}", toks), "table": t.describe(), "expected": "InvalidInput", "observed": o.show()}));
        }
    });
    // an error with a payload of its own arrives with the payload, through any number of calls
    m.cases("payload", 3_000, 40_000, |m, r| {
        #[derive(Debug)]
        struct Inner(u64);
        impl std::fmt::Display for Inner {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "inner {}", self.0)
            }
        }
        impl std::error::Error for Inner {}
        #[derive(Debug)]
        struct Outer(Inner);
        impl std::fmt::Display for Outer {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "outer")
            }
        }
        impl std::error::Error for Outer {
            fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
                Some(&self.0)
            }
        }
        struct Fails(ErrorKind, Option<u64>);
        impl Function<f64> for Fails {
            fn name(&self) -> &str {
                "fails"
            }
            fn call(&self, _: &[f64]) -> prexel::Result<f64> {
                Err(match self.1 {
                    Some(n) => Error::new(self.0, Outer(Inner(n))),
                    None => Error::from(self.0),
                })
            }
        }
        let kind = *r.pick(ALL_KINDS);
        let tag = if r.chance(3, 4) { Some(r.next()) } else { None };
        let mut c = DefaultContext::<f64>::new_checked();
        c.add_function(Fails(kind, tag)).unwrap();
        let ev: Evaluator<f64> = Evaluator::with_context(c);
        let mut text = "fails()".to_string();
        for _ in 0..r.below(6) {
            text = match r.below(6) {
                0 => format!("sum(1, {}, 1/0)", text),
                1 => format!("-{}", text),
                2 => format!("({})!", text),
                3 => format!("3 + {} * 2", text),
                4 => format!("max({})", text),
                _ => format!("[{}] ^ 2", text),
            };
        }
        let res = guard(|| match ev.eval(&text) {
            Ok(_) => vec!["a value"],
            Err(e) => {
                let mut bad = vec![];
                if e.kind() != kind {
                    bad.push("kind");
                }
                match tag {
                    None => {
                        if e.get_ref().is_some() || e.to_string() != kind.as_str() || std::error::Error::source(&e).is_some() {
                            bad.push("something was added");
                        }
                    }
                    Some(n) => {
                        if e.to_string() != "outer" {
                            bad.push("message");
                        }
                        if std::error::Error::source(&e).map(|s| s.to_string()) != Some(format!("inner {}", n)) {
                            bad.push("source");
                        }
                        #[allow(deprecated)]
                        if std::error::Error::cause(&e).map(|s| s.to_string()) != Some(format!("inner {}", n)) {
                            bad.push("cause");
                        }
                        if e.get_ref().and_then(|b| b.downcast_ref::<Outer>()).map(|o| o.0 .0) != Some(n) {
                            bad.push("get_ref");
                        }
                        if e.into_inner().and_then(|b| b.downcast::<Outer>().ok()).map(|o| o.0 .0) != Some(n) {
                            bad.push("into_inner");
                        }
                    }
                }
                bad
            }
        });
        m.evaluations += 1;
        m.count("payloads");
        m.distinct(&(format!("{:?}", kind), tag, text.clone()));
        if res != Ok(vec![]) {
            m.violation(format!("C16:payload:{:?}:{}", kind, text), json!({"kind": format!("{:?}", kind), "expression": text, "payload": tag, "observed": format!("{:?}", res)}));
        }
    });
    m.cases("api", 2_000, 20_000, |m, r| {
        let kind = *r.pick(ALL_KINDS);
        let msg = weird(r, 6);
        let res = guard(|| {
            let simple = Error::from(kind);
            let mut custom = Error::new(kind, msg.clone());
            let other = Error::other(&msg);
            let mut bad = vec![];
            if simple.kind() != kind || custom.kind() != kind || other.kind() != ErrorKind::Unknown {
                bad.push("kind");
            }
            if simple.to_string() != kind.as_str() || simple.to_string().is_empty() {
                bad.push("display of a kind");
            }
            if custom.to_string() != msg || other.to_string() != msg {
                bad.push("display of a message");
            }
            if format!("{:?}", simple).is_empty() || !format!("{:?}", custom).contains(&format!("{:?}", kind)) {
                bad.push("debug");
            }
            if simple.get_ref().is_some() || custom.get_ref().map(|e| e.to_string()) != Some(msg.clone()) {
                bad.push("get_ref");
            }
            if custom.get_mut().map(|e| e.to_string()) != Some(msg.clone()) {
                bad.push("get_mut");
            }
            if let Some(e) = custom.get_mut() {
                *e = "replaced".into();
            }
            if custom.to_string() != "replaced" || custom.kind() != kind {
                bad.push("get_mut replaces");
            }
            if custom.into_inner().map(|e| e.to_string()) != Some("replaced".into()) || simple.into_inner().is_some() {
                bad.push("into_inner");
            }
            if (Error::from(kind) == Error::new(kind, "a")) != true {
                bad.push("equality by kind");
            }
            for k in ALL_KINDS {
                if (Error::from(*k) == Error::new(kind, "a")) != (*k == kind) {
                    bad.push("equality of other kinds");
                }
                if *k != kind && k.as_str() == kind.as_str() {
                    bad.push("two kinds with the same text");
                }
            }
            bad
        });
        m.evaluations += 1;
        m.count("error_values");
        m.distinct(&(format!("{:?}", kind), msg.clone()));
        if res != Ok(vec![]) {
            m.violation(format!("C16:api:{:?}", kind), json!({"kind": format!("{:?}", kind), "message": msg, "observed": format!("{:?}", res)}));
        }
    });
}

// ---------------------------------------------------------------- C18

fn name_like(r: &mut Rng) -> String {
    const POOL: &[&str] = &[
        "a", "A", "b", "B", "z", "Z", "_", "1", "é", "É", "ñ", "Ñ", "σ", "Σ", "ς", "ß", "ẞ", "k", "K", "\u{212a}", "i", "I", "ı", "İ", "ω", "Ω",
        "\u{2126}", "Å", "å", "\u{212b}", "Ǆ", "ǅ", "ǆ", "д", "Д", "漢", "😀", "𐐀", "𐐨", "ꭰ", "Ꭰ", "ﬁ", "\u{307}", "[", "`", "~", "@", "",
    ];
    let n = r.below(5);
    (0..n).map(|_| *r.pick(POOL)).collect()
}

fn vary_case(r: &mut Rng, s: &str) -> String {
    s.chars()
        .map(|c| {
            let o: Vec<char> = match r.below(3) {
                0 => c.to_lowercase().collect(),
                1 => c.to_uppercase().collect(),
                _ => vec![c],
            };
            if o.len() == 1 {
                o[0]
            } else {
                c
            }
        })
        .collect()
}

pub fn c18(m: &mut Mon) {
    use std::cmp::Ordering;
    m.cases("names", 80_000, 1_500_000, |m, r| {
        let a = name_like(r);
        let b = if r.chance(1, 2) { vary_case(r, &a) } else { name_like(r) };
        let c = if r.chance(1, 2) { vary_case(r, &b) } else { name_like(r) };
        // long names are alike for most of their length
        let (a, b, c) = if r.chance(1, 10) {
            let unit = name_like(r);
            let n = if r.chance(1, 20) { r.below(2_000) } else { r.below(120) };
            let start = format!("{}{}", "x".repeat(r.below(3)), unit.repeat(n / unit.len().max(1)));
            let tail = if r.chance(1, 2) { name_like(r) } else { String::new() };
            m.count("long_names");
            let (p, q) = (vary_case(r, &start), vary_case(r, &start));
            (start + &a + &tail, p + &b + &tail, q + &c + &tail)
        } else {
            (a, b, c)
        };
        let s = [&a, &b, &c];
        let own: Vec<IgnoreCaseString> = s.iter().map(|x| IgnoreCaseString::from(x.as_str())).collect();
        let bor: Vec<IgnoreCaseStr> = s.iter().map(|x| IgnoreCaseStr::from(x.as_str())).collect();
        m.evaluations += 1;
        m.distinct(&(a.clone(), b.clone(), c.clone()));
        let res = guard(|| {
            let mut bad: Vec<String> = vec![];
            for i in 0..3 {
                if own[i].as_str() != s[i] || bor[i].as_str() != s[i] || own[i].to_string() != *s[i] || own[i].clone().into_inner() != *s[i] || &*own[i] != s[i].as_str() {
                    bad.push(format!("{:?} is not kept", s[i]));
                }
                for j in 0..3 {
                    // lower-casing letter by letter, and as a whole: where the two disagree nothing is specified
                    let per_char = key(s[i]) == key(s[j]);
                    let whole = s[i].to_lowercase() == s[j].to_lowercase();
                    let flat = lower(s[i]) == lower(s[j]);
                    let eq = own[i] == own[j];
                    if per_char == whole && per_char == flat && eq != per_char {
                        bad.push(format!("{:?} == {:?} is {} but lower-casing says {}", s[i], s[j], eq, per_char));
                    }
                    let (co, cb) = (own[i].cmp(&own[j]), bor[i].cmp(&bor[j]));
                    if (bor[i] == bor[j]) != eq || eq_ignore_case(s[i], s[j]) != eq || cb != co {
                        bad.push(format!("the forms disagree on {:?} and {:?}", s[i], s[j]));
                    }
                    if (co == Ordering::Equal) != eq || own[i].partial_cmp(&own[j]) != Some(co) || bor[i].partial_cmp(&bor[j]) != Some(cb) {
                        bad.push(format!("order and equality disagree on {:?} and {:?}", s[i], s[j]));
                    }
                    if own[j].cmp(&own[i]) != co.reverse() {
                        bad.push(format!("order is not antisymmetric on {:?} and {:?}", s[i], s[j]));
                    }
                    if s[i].is_ascii() && s[j].is_ascii() && co != s[i].to_ascii_lowercase().cmp(&s[j].to_ascii_lowercase()) {
                        bad.push(format!("order of {:?} and {:?} is not that of the lower-cased names", s[i], s[j]));
                    }
                    if eq {
                        if hash_of(&own[i]) != hash_of(&own[j]) || hash_of(&bor[i]) != hash_of(&bor[j]) {
                            bad.push(format!("equal names {:?} and {:?} hash differently", s[i], s[j]));
                        }
                        let set: HashSet<IgnoreCaseString> = [own[i].clone()].into_iter().collect();
                        let map: HashMap<IgnoreCaseStr, u8> = [(bor[i], 1)].into_iter().collect();
                        if !set.contains(&own[j]) || map.get(&bor[j]) != Some(&1) {
                            bad.push(format!("{:?} is not found as {:?}", s[i], s[j]));
                        }
                    }
                }
            }
            if own[0] <= own[1] && own[1] <= own[2] && own[0] > own[2] {
                bad.push("order is not transitive".into());
            }
            if own[0] == own[1] && own[1] == own[2] && own[0] != own[2] {
                bad.push("equality is not transitive".into());
            }
            bad
        });
        if key(&a) == key(&b) {
            m.count("equal_pairs");
            if a != b {
                m.count("equal_differently_spelled");
            }
        }
        m.sample(|| json!({"names": [a, b, c]}));
        if res != Ok(vec![]) {
            m.violation(format!("C18:{:?}:{:?}:{:?}", a, b, c), json!({"names": [a, b, c], "observed": format!("{:?}", res)}));
        }
    });
    // collections keyed by names behave as if keyed by the lower-cased name
    m.cases("maps", 3_000, 50_000, |m, r| {
        let mut hm: HashMap<IgnoreCaseString, usize> = HashMap::new();
        let mut bm: BTreeMap<IgnoreCaseString, usize> = BTreeMap::new();
        let mut model: BTreeMap<Key, usize> = BTreeMap::new();
        let mut last: Vec<String> = vec![];
        for k in 0..12 {
            let s = if r.chance(1, 2) && !last.is_empty() { let l: String = r.pick(&last).clone(); vary_case(r, &l) } else { name_like(r) };
            last.push(s.clone());
            let a = hm.insert(IgnoreCaseString::from(s.as_str()), k);
            let b = bm.insert(IgnoreCaseString::from(s.as_str()), k);
            let w = model.insert(key(&s), k);
            m.evaluations += 1;
            if a != w || b != w || hm.len() != model.len() || bm.len() != model.len() {
                m.violation(format!("C18:map:{:?}", last), json!({"inserted": last, "hash_map": format!("{:?}", hm), "btree_map": format!("{:?}", bm)}));
                return;
            }
        }
        m.distinct(&last);
        m.count("maps");
    });
}

// ---------------------------------------------------------------- C24

pub fn c24(m: &mut Mon) {
    m.cases("ranges", 1_500, 20_000, |m, r| {
        let kind = *r.pick(&["f64c", "f64u", "f32c", "f32u", "i8", "i16", "i32", "i64", "i128", "isize", "dec", "cplx", "cplx32"]);
        let cfg = Cfg { complex: kind.starts_with("cplx"), ..Default::default() };
        let int = kind.starts_with('i');
        let top: f64 = match kind {
            "i8" => 127.0,
            "i16" => 32767.0,
            "i32" => 2147483647.0,
            _ => 1e15,
        };
        let bound = |r: &mut Rng| -> f64 {
            let x = match r.below(6) {
                0 => r.below(10) as f64,
                1 => r.unit() * 10.0,
                2 => r.unit() * 1000.0,
                3 => r.unit() * top,
                4 => 0.0,
                _ => r.below(1000) as f64 / 8.0,
            };
            let x = if int { x.min(top).trunc() } else { (x * 1e4).round() / 1e4 };
            if r.chance(1, 3) {
                -x
            } else {
                x
            }
        };
        let lit = |x: f64| if x < 0.0 { format!("(-{})", -x) } else { format!("{}", x + 0.0) };
        let n_args = r.below(3);
        let (a, b) = (bound(r), bound(r));
        let (text, lo, hi) = match n_args {
            0 => ("random()".to_string(), 0.0, 1.0),
            1 => (format!("random({})", lit(a)), 0.0, a),
            _ => (format!("random({}, {})", lit(a), lit(b)), a, b),
        };
        m.distinct(&(kind, text.clone()));
        let refuse = lo > hi;
        let n = if refuse { 2 } else { 64 };
        let exprs: Vec<&str> = (0..n).map(|_| text.as_str()).collect();
        let outs = eval_many(kind, cfg, &[], &exprs);
        m.evaluations += 1;
        let mut octants = [0usize; 8];
        let mut seen = HashSet::new();
        let single = kind.ends_with("32c") || kind.ends_with("32u") || kind == "cplx32";
        for o in &outs {
            let sig = format!("C24:{}:{}", kind, text);
            match o {
                Out::Err(k, _) if refuse => {
                    m.count("refused");
                    let want = if n_args == 1 { ErrorKind::NegativeValue } else { ErrorKind::InvalidInput };
                    if *k != want {
                        m.violation(sig, json!({"kind": kind, "expression": text, "expected": format!("{:?}", want), "observed": o.show()}));
                        return;
                    }
                }
                Out::Ok(s) if !refuse => {
                    m.count("values");
                    let parts: Vec<f64> = if kind.starts_with("cplx") {
                        match split_complex(s) {
                            Some((x, y)) => vec![x, y],
                            None => vec![f64::NAN],
                        }
                    } else {
                        vec![s.parse().unwrap_or(f64::NAN)]
                    };
                    let eps = if single { 1e-6 } else { 1e-14 } * (lo.abs() + hi.abs());
                    for x in &parts {
                        // rounding to the number type may reach, but not pass, the upper end
                        if !(*x >= lo - eps && *x <= hi + eps) || (n_args == 0 && !single && *x >= 1.0) {
                            m.violation(sig.clone(), json!({"kind": kind, "expression": text, "range": [lo, hi], "observed": s}));
                            return;
                        }
                        if hi > lo {
                            octants[(((x - lo) / (hi - lo) * 8.0) as usize).min(7)] += 1;
                        }
                    }
                    seen.insert(s.clone());
                }
                o => {
                    m.violation(sig, json!({"kind": kind, "expression": text, "range": [lo, hi], "observed": o.show()}));
                    return;
                }
            }
        }
        if !refuse && hi > lo {
            m.count("spread_checked");
            // chance of missing an octant in 64 uniform draws: 8 * (7/8)^64 = 0.15%; only judge what is beyond chance
            let wide = hi - lo >= if int { 64.0 } else { 0.001 };
            if wide {
                let empty = octants.iter().filter(|n| **n == 0).count();
                if empty >= 4 || (seen.len() < if int { 12 } else { 48 }) {
                    m.violation(
                        format!("C24:spread:{}:{}", kind, text),
                        json!({"kind": kind, "expression": text, "different_values": seen.len(), "per_eighth_of_the_range": octants}),
                    );
                }
                m.add("different_values", seen.len() as u64);
            }
        }
        m.sample(|| json!({"kind": kind, "expression": text, "range": [lo, hi], "values": outs.iter().take(3).map(|o| o.show()).collect::<Vec<_>>()}));
    });
    // one long run per kind: the whole range is reached, to its ends
    m.cases("spread", 40, 400, |m, _| {
        let at = (m.index & 0xff_ffff_ffff) as usize;
        let kind = ["f64c", "f64u", "f32c", "dec", "cplx", "i64", "i32", "f32u", "cplx32", "i128", "isize", "i16", "i8"][at % 13];
        let cfg = Cfg { complex: kind.starts_with("cplx"), ..Default::default() };
        let int = kind.starts_with('i');
        // the widest range of the type, whose size does not fit in it
        let widest: f64 = match kind {
            "f64c" | "f64u" | "cplx" => 1.7e308,
            "f32c" | "f32u" | "cplx32" => 3.4e38,
            "dec" => 7.9e28,
            "i8" => 100.0,
            "i16" => 32_000.0,
            "i32" => 2.1e9,
            "i64" | "isize" => 9e18,
            _ => 1.6e38,
        };
        let (text, lo, hi) = match at / 13 % 5 {
            0 if !int => ("random()", 0.0, 1.0),
            1 => ("random(v)", 0.0, 100.0),
            2 => ("random(-50, 70)", -50.0, 70.0),
            3 => ("random(u, v)", -widest, widest),
            _ => ("random(v)", 0.0, widest),
        };
        let vars: Vec<(String, String)> = if text.contains('v') {
            let show = |x: f64| if kind.starts_with("cplx") { format!("{}+0i", x) } else if kind == "i64" || kind == "isize" || kind == "i128" { format!("{:.0}", x) } else { format!("{}", x) };
            vec![("u".into(), show(lo)), ("v".into(), show(hi))]
        } else {
            vec![]
        };
        let n = 4000;
        let exprs: Vec<&str> = (0..n).map(|_| text).collect();
        let mut bins = [[0usize; 20]; 2];
        let mut seen = HashSet::new();
        for o in eval_many(kind, cfg, &vars, &exprs) {
            m.evaluations += 1;
            m.count("values");
            let x = match &o {
                Out::Ok(s) if kind.starts_with("cplx") => split_complex(s),
                Out::Ok(s) => s.parse::<f64>().ok().map(|x| (x, x)),
                _ => None,
            };
            match x {
                Some((x, y)) if x >= lo && x <= hi && y >= lo && y <= hi => {
                    for (b, x) in bins.iter_mut().zip([x, y]) {
                        b[(((x / 2.0 - lo / 2.0) / (hi / 2.0 - lo / 2.0) * 20.0) as usize).min(19)] += 1;
                    }
                    seen.insert(format!("{:?}", o));
                }
                _ => {
                    m.violation(format!("C24:{}:{}", kind, text), json!({"kind": kind, "expression": text, "range": [lo, hi], "observed": o.show()}));
                    return;
                }
            }
        }
        m.count(if text.contains('u') { "spread_widest" } else { "spread" });
        let bins = bins.concat();
        m.distinct(&(kind, text, bins.to_vec()));
        // expected 200 per bin, standard deviation 14; integers are truncated so bins may differ by two
        let bad = bins.iter().any(|b| *b < if int { 60 } else { 110 });
        if bad || seen.len() < if int { 80 } else { 3000 } {
            m.violation(format!("C24:spread:{}:{}", kind, text), json!({"kind": kind, "expression": text, "different_values": seen.len(), "per_twentieth": bins.to_vec()}));
        }
    });
}

/// Reads `a+bi` as printed by a complex number.
pub fn split_complex(s: &str) -> Option<(f64, f64)> {
    let b = s.strip_suffix('i')?;
    let at = b.char_indices().skip(1).filter(|(_, c)| *c == '+' || *c == '-').map(|(i, _)| i).last()?;
    // a negative zero is printed as `+-0i`
    let re = b[..at].strip_suffix('+').unwrap_or(&b[..at]);
    Some((re.parse().ok()?, b[at..].parse().ok()?))
}

// ---------------------------------------------------------------- C26

pub fn c26(m: &mut Mon) {
    m.cases("read_back", 25_000, 400_000, |m, r| {
        let kind = *r.pick(&["f64c", "f64u", "f32c", "f32u", "i8", "i16", "i32", "i64", "i128", "isize", "dec", "cplx", "cplx32", "bin"]);
        let cfg = Cfg { complex: kind.starts_with("cplx"), implicit: r.chance(1, 2), custom_call: false };
        let int = kind.starts_with('i');
        // a value, by a literal, a variable or a computation
        let bits = match kind {
            "i8" => 7,
            "i16" => 15,
            "i32" => 31,
            "i64" | "isize" => 63,
            _ => 127,
        };
        let raw = |r: &mut Rng| -> String {
            match kind {
                "bin" => {
                    let v = r.u128() >> r.below(128);
                    let v = if r.chance(1, 4) { (v as i128).wrapping_neg() } else { v as i128 };
                    format!("{}", v)
                }
                _ if int => {
                    let v = (r.u128() >> (128 - bits)) >> r.below(bits as usize);
                    if r.chance(1, 3) { format!("-{}", v) } else { v.to_string() }
                }
                "dec" => {
                    let v = r.u128() >> (32 + r.below(96));
                    let s = v.to_string();
                    let s = if r.chance(2, 3) && s.len() > 1 { let at = 1 + r.below(s.len() - 1); format!("{}.{}", &s[..at], &s[at..]) } else { s };
                    if r.chance(1, 3) { format!("-{}", s) } else { s }
                }
                _ => {
                    let x = match r.below(5) {
                        0 => (r.range(-1000, 1000)) as f64,
                        1 => r.unit() * 10f64.powi(r.range(-20, 20) as i32),
                        2 => {
                            let x = f64::from_bits(r.next());
                            if x.is_finite() { x } else { 0.5 }
                        }
                        3 => f32::from_bits(r.next() as u32) as f64,
                        _ => r.range(-100000, 100000) as f64 / 100.0,
                    };
                    let x = if x.is_finite() { x } else { 1.25 };
                    format!("{:e}", x)
                }
            }
        };
        let (x, y) = (raw(r), raw(r));
        // variables hold the raw values; complex values get both parts
        let (vars, text): (Vec<(String, String)>, String) = match kind {
            "cplx" | "cplx32" => {
                let f = |s: &str| format!("{}", s.parse::<f64>().unwrap());
                let pos = |s: String| s.trim_start_matches('-').to_string();
                let z = format!("{}{}{}i", f(&x), if r.chance(1, 2) { "+" } else { "-" }, pos(f(&y)));
                (vec![("v".into(), z.clone()), ("w".into(), "2.5-1i".into())], r.pick(&["v", "v * w", "v - w", "v / w", "-v", "sqrt(v)"]).to_string())
            }
            "bin" => (vec![("v".into(), x.clone()), ("w".into(), y.clone())], r.pick(&["v", "~v", "v & w", "v | w", "v ^ w", "v > w", "v << 3"]).to_string()),
            _ => (
                vec![("v".into(), x.clone()), ("w".into(), y.clone())],
                r.pick(&["v", "v", "v + w", "v - w", "v * w", "v / w", "-v", "v mod w", "sum(v, w, 1)", "max(v, w)", "sqrt(v)"]).to_string(),
            ),
        };
        let o = eval1(kind, cfg, &vars, &text);
        let printed = match &o {
            Out::Ok(s) => s.clone(),
            _ => {
                m.count("no_result");
                return;
            }
        };
        if printed.contains("inf") || printed.contains("NaN") {
            m.count("not_finite");
            return;
        }
        m.evaluations += 1;
        m.distinct(&(kind, printed.clone()));
        m.count(&format!("read_{}", kind));
        let input = if kind == "bin" { format!("b{}", printed) } else { printed.clone() };
        let again = eval1(kind, cfg, &[], &input);
        m.sample(|| json!({"kind": kind, "expression": text, "printed": printed, "read_back": again.show()}));
        let same = match (&again, kind) {
            (Out::Ok(s), _) if *s == printed => true,
            // zero may lose its sign
            (Out::Ok(s), "cplx" | "cplx32") => match (split_complex(s), split_complex(&printed)) {
                (Some(a), Some(b)) => a.0 == b.0 && a.1 == b.1,
                _ => false,
            },
            (Out::Ok(s), k) if k.starts_with('f') => s.parse::<f64>().ok() == printed.parse::<f64>().ok(),
            (Out::Ok(s), "dec") => s.parse::<Decimal>().ok() == printed.parse::<Decimal>().ok(),
            _ => false,
        };
        if !same {
            m.violation(
                format!("C26:{}:{}", kind, input),
                json!({"kind": kind, "variables": vars, "expression": text, "printed": printed, "evaluated": input, "observed": again.show()}),
            );
            return;
        }
        // and the value read back is the value computed, not only its text
        if r.chance(1, 3) && kind != "bin" {
            let mut both = vars.clone();
            let t2 = format!("({}) - ({})", text, input);
            both.retain(|_| true);
            let o = eval1(kind, cfg, &both, &t2);
            m.count("differences");
            let zero = match &o {
                Out::Ok(s) => match split_complex(s) {
                    Some((a, b)) => a == 0.0 && b == 0.0,
                    None => s.parse::<f64>().ok() == Some(0.0),
                },
                _ => false,
            };
            if !zero {
                m.violation(
                    format!("C26:{}:difference:{}", kind, t2),
                    json!({"kind": kind, "variables": vars, "expression": t2, "expected": "0", "observed": o.show()}),
                );
            }
        }
    });
    // the extreme values
    m.cases("extremes", 40, 40, |m, _| {
        let all: Vec<(&str, String)> = [
            ("i8", i8::MIN as i128, i8::MAX as i128),
            ("i16", i16::MIN as i128, i16::MAX as i128),
            ("i32", i32::MIN as i128, i32::MAX as i128),
            ("i64", i64::MIN as i128, i64::MAX as i128),
            ("isize", isize::MIN as i128, isize::MAX as i128),
            ("i128", i128::MIN, i128::MAX),
            ("bin", i128::MIN, i128::MAX),
        ]
        .iter()
        .flat_map(|(k, a, b)| vec![(*k, a.to_string()), (*k, b.to_string()), (*k, (a + 1).to_string()), (*k, "-1".to_string())])
        .chain(vec![
            ("dec", Decimal::MAX.to_string()),
            ("dec", Decimal::MIN.to_string()),
            ("dec", "0.0000000000000000000000000001".to_string()),
            ("f64c", format!("{}", f64::MAX)),
            ("f64c", format!("{}", f64::MIN_POSITIVE)),
            ("f64c", format!("{}", -f64::MAX)),
            ("f64c", format!("{}", f64::from_bits(1))),
            ("f32c", format!("{}", f32::MAX)),
            ("f32c", format!("{}", f32::from_bits(1))),
        ])
        .collect();
        let k = (m.index & 0xff) as usize;
        if k >= all.len() {
            return;
        }
        let (kind, v) = &all[k];
        let outs = [eval1(kind, Cfg::default(), &[("v".into(), v.clone())], "v")];
        let printed = match &outs[0] {
            Out::Ok(s) => s.clone(),
            o => {
                m.violation(format!("C26:extreme:{}:{}", kind, v), json!({"kind": kind, "value": v, "observed": o.show()}));
                return;
            }
        };
        m.evaluations += 1;
        m.count("extremes");
        m.distinct(&(kind, v));
        let input = if *kind == "bin" { format!("b{}", printed) } else { printed.clone() };
        let again = eval1(kind, Cfg::default(), &[], &input);
        if again != Out::Ok(printed.clone()) {
            m.violation(format!("C26:{}:{}", kind, input), json!({"kind": kind, "printed": printed, "observed": again.show()}));
        }
    });
}

#[allow(unused)]
fn _grouping() -> Grouping {
    Grouping::Parenthesis
}
