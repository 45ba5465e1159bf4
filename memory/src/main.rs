//! Histories of context operations and evaluations over heap-owning numbers, for the memory
//! sanitizers, with a register of the values alive and of the bytes allocated.
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::decimal::Decimal;
use prexel::error::{Error, ErrorKind};
use prexel::evaluator::{infix_to_rpn, rpn_eval, Evaluator};
use prexel::function::*;
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use prexel::utils::ignore_case_str::IgnoreCaseStr;
use prexel::utils::ignore_case_string::IgnoreCaseString;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{hash_map::DefaultHasher, BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicIsize, Ordering};
use std::sync::Arc;

struct Counting;
static BYTES: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as isize, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size() as isize, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as isize - l.size() as isize, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
}

// ---------------------------------------------------------------- values that are accounted for

#[derive(Default)]
struct Register {
    next: u64,
    alive: BTreeSet<u64>,
    made: u64,
    wrong: Vec<String>,
    history: Vec<String>,
    counters: BTreeMap<&'static str, u64>,
}
thread_local! { static REG: RefCell<Register> = RefCell::new(Register::default()); }

fn reg<T>(f: impl FnOnce(&mut Register) -> T) -> T {
    REG.with(|r| f(&mut r.borrow_mut()))
}
fn count(k: &'static str) {
    reg(|r| *r.counters.entry(k).or_insert(0) += 1)
}

/// A number that owns memory and remembers what it is.
struct Val {
    text: String,
    id: u64,
    check: u64,
}
impl Val {
    fn new(mut text: String) -> Val {
        if text.len() > 60 {
            let mut h = DefaultHasher::new();
            text.hash(&mut h);
            text = format!("#{:x}", h.finish());
        }
        let id = reg(|r| {
            r.next += 1;
            r.made += 1;
            r.alive.insert(r.next);
            r.next
        });
        Val { check: Val::sum(&text, id), text, id }
    }
    fn sum(text: &str, id: u64) -> u64 {
        text.bytes().fold(id ^ 0x5851_F42D_4C95_7F2D, |a, b| a.rotate_left(5) ^ b as u64)
    }
    fn look(&self) -> &str {
        let intact = self.check == Val::sum(&self.text, self.id);
        let alive = reg(|r| r.alive.contains(&self.id));
        if !intact || !alive {
            reg(|r| r.wrong.push(format!("value {} read while {}", self.id, if intact { "not alive" } else { "overwritten" })));
        }
        &self.text
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        Val::new(self.look().to_string())
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        let was = reg(|r| r.alive.remove(&self.id));
        if !was {
            reg(|r| r.wrong.push(format!("value {} dropped twice", self.id)));
        }
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.look())
    }
}
impl std::fmt::Display for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.look())
    }
}
impl std::str::FromStr for Val {
    type Err = ();
    fn from_str(s: &str) -> Result<Val, ()> {
        if s.parse::<f64>().is_ok() {
            Ok(Val::new(s.to_string()))
        } else {
            Err(())
        }
    }
}

/// A function or operator that owns a value and misbehaves from time to time.
struct Op {
    name: String,
    aliases: Vec<&'static str>,
    prec: u32,
    right: bool,
    post: bool,
    mood: u8,
    own: Val,
}
impl Op {
    fn result(&self, args: &[&Val]) -> prexel::Result<Val> {
        count("calls");
        self.own.look();
        let mut s = format!("{}(", self.name);
        for a in args {
            s.push_str(a.look());
            s.push(' ');
        }
        match self.mood {
            0 => Err(Error::new(ErrorKind::InvalidInput, s)),
            1 => {
                count("panicking_calls");
                std::panic::panic_any("as asked")
            }
            _ => Ok(Val::new(s + ")")),
        }
    }
    fn some(&self) -> Option<&[&str]> {
        if self.aliases.is_empty() {
            None
        } else {
            Some(&self.aliases)
        }
    }
}
impl Function<Val> for Op {
    fn name(&self) -> &str {
        &self.name
    }
    fn call(&self, args: &[Val]) -> prexel::Result<Val> {
        self.result(&args.iter().collect::<Vec<_>>())
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.some()
    }
}
impl BinaryFunction<Val> for Op {
    fn name(&self) -> &str {
        &self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.some()
    }
    fn precedence(&self) -> Precedence {
        Precedence(self.prec)
    }
    fn associativity(&self) -> Associativity {
        if self.right {
            Associativity::Right
        } else {
            Associativity::Left
        }
    }
    fn call(&self, a: Val, b: Val) -> prexel::Result<Val> {
        self.result(&[&a, &b])
    }
}
impl UnaryFunction<Val> for Op {
    fn name(&self) -> &str {
        &self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.some()
    }
    fn notation(&self) -> Notation {
        if self.post {
            Notation::Postfix
        } else {
            Notation::Prefix
        }
    }
    fn call(&self, a: Val) -> prexel::Result<Val> {
        self.result(&[&a])
    }
}

const WORDS: &[&str] = &["f", "g", "sum", "Max", "max", "ma", "x", "y", "val", "pi", "PI", "mod", "\u{e9}t\u{e9}", "\u{130}", "s\u{df}", "long_name_of_something_1"];
const SYMBOLS: &[&str] = &["+", "-", "*", "/", "^", "!", "<<", "<", "<=", "~", "&&", "&", "\u{221a}"];
const PIECES: &[&str] = &["1", "2.5", "007", "(", ")", "[", "]", "{", "}", ",", " ", "  ", "f(", "g()", "sum(1,2)", "x", "X", "(x)", "1)(2", ".5", "5.", "..", "\u{661}", "\u{0}", "f", "2i"];

thread_local! { static GUARDED: std::cell::Cell<bool> = std::cell::Cell::new(false); }
fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    GUARDED.with(|g| g.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    GUARDED.with(|g| g.set(false));
    if r.is_none() {
        count("panics");
    }
    r
}
fn note(s: String) {
    reg(|r| r.history.push(s));
}

fn op(r: &mut Rng, words: &[&'static str]) -> Op {
    let n = r.below(4);
    Op {
        name: if r.chance(1, 12) { ["", "a b", "1", "(", ","][r.below(5)].to_string() } else { r.pick(words).to_string() },
        aliases: (0..n.saturating_sub(1)).map(|_| *r.pick(words)).collect(),
        prec: r.below(4) as u32,
        right: r.chance(1, 2),
        post: r.chance(1, 3),
        mood: if r.chance(1, 10) { r.below(2) as u8 } else { 9 },
        own: Val::new("own".to_string()),
    }
}

fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    if !cfg!(miri) && r.chance(1, 80) {
        // many arguments, a long chain, deep groups; sometimes the end is missing
        count("large_texts");
        let n = 30 + r.below(300);
        let (a, b, c) = match r.below(4) {
            0 => (format!("{}(", r.pick(WORDS)), "x, ", "1)".to_string()),
            1 => ("".to_string(), *r.pick(&["x + ", "1 * ", "2 ^ ", "- ", "x ! + "]), "1".to_string()),
            2 => ("".to_string(), *r.pick(&["(", "[{", "(1 + "]), "1".to_string()),
            _ => ("".to_string(), "(", format!("1{}", ")".repeat(n))),
        };
        return a + &b.repeat(n) + if r.chance(3, 4) { &c } else { "" };
    }
    if r.chance(2, 3) {
        // mostly well formed
        fn e(r: &mut Rng, s: &mut String, d: usize) {
            match if d == 0 { r.below(2) } else { r.below(7) } {
                0 => s.push_str(r.pick(&["1", "22", "3.5"])),
                1 => s.push_str(r.pick(&["x", "y", "val", "pi", "X"])),
                2 => {
                    let (a, b) = *r.pick(&[("(", ")"), ("[", "]"), ("{", "}"), ("(", ")")]);
                    s.push_str(a);
                    e(r, s, d - 1);
                    s.push_str(b)
                }
                3 => {
                    s.push_str(r.pick(WORDS));
                    s.push('(');
                    for k in 0..r.below(4) {
                        if k > 0 {
                            s.push(',');
                        }
                        e(r, s, d - 1);
                    }
                    s.push(')')
                }
                4 => {
                    s.push_str(r.pick(SYMBOLS));
                    e(r, s, d - 1);
                }
                _ => {
                    e(r, s, d - 1);
                    s.push(' ');
                    s.push_str(r.pick(SYMBOLS));
                    s.push(' ');
                    e(r, s, d - 1);
                }
            }
        }
        e(r, &mut s, 3);
    } else {
        for _ in 0..r.below(9) {
            s.push_str(if r.chance(1, 3) { r.pick(SYMBOLS) } else { r.pick(PIECES) });
        }
    }
    s
}

fn tokens(r: &mut Rng) -> Vec<Token<Val>> {
    (0..r.below(8))
        .map(|_| match r.below(11) {
            0 | 1 => Token::Number(Val::new("7".into())),
            2 => Token::Variable(r.pick(WORDS).to_string()),
            3 => Token::Constant(r.pick(WORDS).to_string()),
            4 => Token::Function(r.pick(WORDS).to_string()),
            5 => Token::BinaryOperator(r.pick(SYMBOLS).to_string()),
            6 => Token::UnaryOperator(r.pick(SYMBOLS).to_string()),
            7 => Token::ArgCount(r.below(6)),
            8 => Token::GroupingOpen(*r.pick(&['(', '[', '{'])),
            9 => Token::GroupingClose(*r.pick(&[')', ']', '}'])),
            _ => {
                if r.chance(1, 3) {
                    Token::Unknown("?".into())
                } else {
                    Token::Comma
                }
            }
        })
        .collect()
}

fn config(r: &mut Rng) -> Config {
    let mut c = Config::new().with_implicit_mul(r.chance(1, 2));
    if r.chance(1, 3) {
        c = c.with_custom_function_call(true).with_grouping(Grouping::Bracket);
    }
    c.with_complex_number(r.chance(1, 4))
}

/// One history over user-defined contexts.
fn history(r: &mut Rng, steps: usize) {
    let mut evs: Vec<Evaluator<'static, Val>> = vec![Evaluator::with_context(DefaultContext::with_config(config(r)))];
    if r.chance(5, 6) {
        // something to work with
        let c = evs[0].mut_context();
        for w in ["f", "g", "sum"] {
            let o = Op { name: w.to_string(), ..op(r, &["h", "k_1", "tan"]) };
            guard(|| c.add_function(o).is_ok());
        }
        for w in ["+", "-", "*", "^"] {
            let o = Op { name: w.to_string(), aliases: vec![], ..op(r, SYMBOLS) };
            guard(|| c.add_binary_function(o).is_ok());
        }
        for w in ["-", "!", "~"] {
            let o = Op { name: w.to_string(), aliases: vec![], post: w == "!", ..op(r, SYMBOLS) };
            guard(|| c.add_unary_function(o).is_ok());
        }
        for w in ["x", "y", "val"] {
            let _ = c.set_variable(w, Val::new("1".into()));
        }
    }
    for _ in 0..steps {
        let k = r.below(evs.len());
        match r.below(14) {
            0 => {
                let (o, a) = (op(r, WORDS), r.chance(1, 3));
                let n = *r.pick(WORDS);
                note(format!("{} function {:?} {:?} {}", k, o.name, o.aliases, a));
                let c = evs[k].mut_context();
                count("registrations");
                guard(|| if a { c.add_function_as(o, n) } else { c.add_function(o) }.is_ok());
            }
            1 | 2 => {
                let (o, a) = (op(r, SYMBOLS), r.chance(1, 4));
                let n = *r.pick(SYMBOLS);
                note(format!("{} unary {:?} {:?} {}", k, o.name, o.aliases, a));
                let c = evs[k].mut_context();
                count("registrations");
                guard(|| if a { c.add_unary_function_as(o, n) } else { c.add_unary_function(o) }.is_ok());
            }
            3 | 4 => {
                let words = if r.chance(1, 4) { WORDS } else { SYMBOLS };
                let (o, a) = (op(r, words), r.chance(1, 4));
                let n = *r.pick(SYMBOLS);
                note(format!("{} binary {:?} {:?} {}", k, o.name, o.aliases, a));
                let c = evs[k].mut_context();
                count("registrations");
                guard(|| if a { c.add_binary_function_as(o, n) } else { c.add_binary_function(o) }.is_ok());
            }
            5 | 6 => {
                let (n, constant) = (*r.pick(WORDS), r.chance(1, 3));
                let v = Val::new(format!("{}", r.below(100)));
                note(format!("{} {} {:?}", k, if constant { "constant" } else { "variable" }, n));
                let c = evs[k].mut_context();
                count("assignments");
                if constant {
                    guard(|| c.add_constant(n, v).is_ok());
                } else if let Some(Ok(Some(old))) = guard(|| c.set_variable(n, v)) {
                    count("rebound");
                    old.look();
                }
            }
            7 if evs.len() < 5 => {
                note(format!("copy {}", k));
                count("copies");
                let c = evs[k].context().clone();
                evs.push(Evaluator::with_context(c));
            }
            8 if evs.len() > 1 => {
                note(format!("drop {}", k));
                count("drops");
                evs.swap_remove(k);
            }
            9 => {
                note(format!("read all {}", k));
                count("reads");
                let c = evs[k].context();
                let mut held: Vec<&Val> = c.variables().values().collect();
                held.extend(c.constants().values());
                for n in WORDS {
                    held.extend(c.get_variable(n));
                    held.extend(c.get_constant(n));
                }
                let mut n = 0;
                for (k, v) in c.variables() {
                    n += k.len() + v.look().len();
                }
                for (k, v) in c.constants() {
                    n += k.as_str().len() + v.look().len();
                }
                for (k, f) in c.functions() {
                    n += k.len() + f.name().len() + f.aliases().map_or(0, |a| a.len()) + f.description().map_or(0, |d| d.len());
                }
                for (k, f) in c.unary_functions() {
                    n += k.len() + f.name().len() + f.notation() as usize;
                }
                for (k, f) in c.binary_functions() {
                    n += k.len() + f.name().len() + f.precedence().0 as usize;
                }
                for v in held {
                    n += v.look().len();
                }
                std::hint::black_box(n);
            }
            10 => {
                let t = tokens(r);
                note(format!("{} tokens {:?}", k, t));
                count("token_evaluations");
                let c = evs[k].context();
                guard(|| evs[k].eval_tokens(&t).map(|v| v.look().len()).ok());
                let rpn = guard(|| infix_to_rpn(&t, c).ok()).flatten();
                if let Some(p) = rpn {
                    guard(|| rpn_eval(&p, c).map(|v| v.look().len()).ok());
                }
                guard(|| rpn_eval(&t, c).map(|v| v.look().len()).ok());
            }
            11 => {
                let s = text(r);
                note(format!("{} tokenize {:?}", k, s));
                let t: Tokenizer<Val> = Tokenizer::new();
                if let Some(Ok(ts)) = guard(|| t.tokenize(evs[k].context(), &s)) {
                    count("tokenized");
                    let back: Vec<String> = ts.iter().map(|x| x.to_string()).collect();
                    std::hint::black_box(back);
                    let again = ts.clone();
                    drop(ts);
                    guard(|| evs[k].eval_tokens(&again).is_ok());
                }
            }
            _ => {
                let s = text(r);
                note(format!("{} eval {:?}", k, s));
                count("evaluations");
                match guard(|| evs[k].eval(&s)) {
                    Some(Ok(v)) => {
                        v.look();
                        count("values");
                    }
                    Some(Err(e)) => {
                        count("errors");
                        std::hint::black_box(e.to_string());
                    }
                    None => {}
                }
            }
        }
    }
    // in any order
    while !evs.is_empty() {
        let k = r.below(evs.len());
        let e = evs.swap_remove(k);
        if r.chance(1, 3) {
            let c = e.context().clone();
            drop(e);
            drop(c);
        }
    }
}

/// Evaluations in the built-in contexts.
fn built_in(r: &mut Rng, n: usize) {
    fn go<N>(mut c: DefaultContext<'static, N>, bin: bool, r: &mut Rng, n: usize)
    where
        N: std::str::FromStr + std::fmt::Debug + std::fmt::Display + Clone + 'static,
    {
        if let Ok(v) = N::from_str("3") {
            let _ = c.set_variable("x", v);
        }
        let names: Vec<String> = c.functions().keys().map(|k| k.to_string()).collect();
        let copy = if r.chance(1, 2) { Some(c.clone()) } else { None };
        let ev: Evaluator<N> = if bin {
            Evaluator::with_context_and_tokenizer(c, Tokenizer::with_splitter(binary_number_splitter()))
        } else {
            Evaluator::with_context(c)
        };
        for _ in 0..n {
            let s = if !names.is_empty() && r.chance(1, 3) {
                let a = ["1", "0.5", "-2", "30", "x", "b101", "1/3"];
                let args: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(&a)).collect();
                format!("{}({})", r.pick(&names[..]), args.join(","))
            } else {
                text(r)
            };
            note(format!("built-in {:?}", s));
            count("built_in");
            if let Some(Ok(v)) = guard(|| ev.eval(&s)) {
                count("built_in_values");
                std::hint::black_box(v.to_string());
            }
        }
        drop(ev);
        drop(copy);
    }
    let c = config(r);
    match r.below(7) {
        0 => go::<f64>(DefaultContext::with_config_checked(c), false, r, n),
        1 => go::<i32>(DefaultContext::with_config_checked(c), false, r, n),
        2 => go::<i128>(DefaultContext::with_config_checked(c), false, r, n),
        3 => go::<Decimal>(DefaultContext::with_config_decimal(c), false, r, n),
        4 => go::<Complex<f64>>(DefaultContext::with_config_complex(c), false, r, n),
        5 => go::<f32>(DefaultContext::with_config_unchecked(c), false, r, n),
        _ => go::<Binary>(DefaultContext::with_config_binary(c), true, r, n),
    }
}

/// Names used by several threads at once, each with contexts of its own besides.
fn threads(r: &mut Rng, n: usize) {
    let names: Arc<Vec<IgnoreCaseString>> = Arc::new((0..6).map(|_| IgnoreCaseString::from(*r.pick(WORDS))).collect());
    let owned: Vec<String> = (0..4).map(|_| r.pick(WORDS).to_uppercase()).collect();
    let borrowed: Vec<IgnoreCaseStr<'_>> = owned.iter().map(|s| IgnoreCaseStr::from(s.as_str())).collect();
    let errors = std::sync::Mutex::new(Vec::new());
    count("thread_rounds");
    std::thread::scope(|s| {
        let handles: Vec<_> = (0..3)
            .map(|k| {
                let (names, borrowed, errors) = (names.clone(), &borrowed, &errors);
                let seed = r.next();
                s.spawn(move || {
                    let mut r = Rng(seed);
                    let mut map: HashMap<IgnoreCaseString, usize> = HashMap::new();
                    for i in 0..n {
                        let (a, b) = (&names[r.below(names.len())], &borrowed[r.below(borrowed.len())]);
                        let mut h = DefaultHasher::new();
                        a.hash(&mut h);
                        b.hash(&mut h);
                        std::hint::black_box((h.finish(), a == &names[i % names.len()], a.cmp(&names[0]), b == &borrowed[i % borrowed.len()], a.to_string(), b.to_string()));
                        map.insert(a.clone(), i);
                        let mut c = a.clone();
                        c.get_mut().push('z');
                        map.remove(&c);
                        std::hint::black_box(c.into_inner());
                    }
                    let mut c: DefaultContext<'static, f64> = if k == 0 { DefaultContext::new_unchecked() } else { DefaultContext::new_checked() };
                    let _ = c.set_variable("x", k as f64);
                    let ev = Evaluator::with_context(c);
                    for _ in 0..n / 2 {
                        let t = text(&mut r);
                        if let Some(Err(e)) = guard(|| ev.eval(&t)) {
                            errors.lock().unwrap().push(e);
                        }
                    }
                    map.len()
                })
            })
            .collect();
        for h in handles {
            std::hint::black_box(h.join().unwrap());
        }
    });
    let n = errors.into_inner().unwrap().iter().map(|e| e.to_string().len()).sum::<usize>();
    std::hint::black_box(n);
}

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}

fn report(sig: &str, what: &str) {
    let h = reg(|r| std::mem::take(&mut r.history));
    println!("V {{\"sig\":{},\"what\":{},\"history\":[{}]}}", quote(sig), quote(what), h.iter().map(|s| quote(s)).collect::<Vec<_>>().join(","));
}

/// mem <seed> <from> <to> <step> <small>
fn main() {
    std::panic::set_hook(Box::new(|i| {
        if !GUARDED.with(|g| g.get()) {
            eprintln!("MONITOR PANIC {}", i);
        }
    }));
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let (seed, from, to, step, small) = (a[0], a[1], a[2], a[3], a[4] == 1);
    let mut shown = 0;
    let mut base: Option<(isize, u64)> = None;
    let mut k = from;
    let mut most = 0;
    let mut distinct = BTreeSet::new();
    while k < to && shown < 5 {
        println!("AT {}", k);
        let mut r = Rng(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ k.wrapping_mul(0x9E6C_63D0_876A_3F6D));
        reg(|r| r.history.clear());
        count("cases");
        match k % 8 {
            0 | 1 if small => built_in(&mut r, 4),
            0 | 1 => built_in(&mut r, 40),
            2 if small => threads(&mut r, 8),
            2 => threads(&mut r, 60),
            _ if small => history(&mut r, 40),
            _ => {
                let n = 30 + r.below(170);
                history(&mut r, n)
            }
        }
        let wrong = reg(|r| std::mem::take(&mut r.wrong));
        for w in wrong {
            shown += 1;
            report("value", &format!("case {}: {}", k, w));
        }
        let left = reg(|r| std::mem::take(&mut r.alive));
        if !left.is_empty() {
            shown += 1;
            report("leak", &format!("case {}: {} values never dropped", k, left.len()));
        }
        reg(|r| {
            let mut h = DefaultHasher::new();
            r.history.hash(&mut h);
            distinct.insert(h.finish());
            r.history.clear();
            r.history.shrink_to_fit();
        });
        // bytes alive between cases, the monitor's own set aside
        let now = BYTES.load(Ordering::Relaxed) - distinct.len() as isize * 16;
        let done = (k - from) / step;
        if done == 60 {
            base = Some((now, done));
        }
        if let Some((b, d)) = base {
            most = most.max(now - b);
            if done - d == 200 {
                // a hundred bytes kept by each case would be 20000
                if now - b > 12_000 {
                    shown += 1;
                    report("growth", &format!("cases up to {}: {} bytes more are allocated after 200 cases than before", k, now - b));
                }
                base = Some((now, done));
            }
        }
        k += step;
    }
    let (c, made) = reg(|r| (r.counters.clone(), r.made));
    let mut o: Vec<String> = c.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    o.push(format!("\"values_made\":{}", made));
    println!("DONE {{\"counters\":{{{}}},\"distinct\":{},\"growth\":{},\"violations\":{}}}", o.join(","), distinct.len(), most, shown);
}
