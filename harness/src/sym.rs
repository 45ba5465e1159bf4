//! A symbolic number type whose operators record every call, random operator tables, and an
//! independent reference grammar (recursive descent, precedence climbing) for infix expressions.
use crate::core::Rng;
use prexel::context::{Config, Context, DefaultContext};
use prexel::error::{Error, ErrorKind};
use prexel::evaluator::Evaluator;
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
use prexel::token::Token;
use std::cell::RefCell;
use std::collections::HashMap;

/// A "number" that is the text of the tree it was computed by.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Sym(pub String);

impl std::str::FromStr for Sym {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let b = s.as_bytes();
        let digits = b.iter().filter(|c| c.is_ascii_digit()).count();
        let dots = b.iter().filter(|c| **c == b'.').count();
        if digits > 0 && dots <= 1 && digits + dots == b.len() && b[0] != b'.' {
            Ok(Sym(s.to_string()))
        } else {
            Err(format!("not a number: {}", s))
        }
    }
}
impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

/// One observed call.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Call {
    pub op: String,
    pub args: Vec<String>,
}

thread_local! {
    static TRACE: RefCell<Vec<Call>> = RefCell::new(Vec::new());
    static FAIL: RefCell<Option<(usize, ErrorKind, String)>> = RefCell::new(None);
}

pub fn trace_reset(fail: Option<(usize, ErrorKind, String)>) {
    TRACE.with(|t| t.borrow_mut().clear());
    FAIL.with(|f| *f.borrow_mut() = fail);
}
pub fn trace_take() -> Vec<Call> {
    FAIL.with(|f| *f.borrow_mut() = None);
    TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()))
}

fn observed(op: &str, args: &[Sym]) -> prexel::Result<Sym> {
    let n = TRACE.with(|t| {
        let mut t = t.borrow_mut();
        t.push(Call { op: op.to_string(), args: args.iter().map(|a| a.0.clone()).collect() });
        t.len() - 1
    });
    if let Some((k, kind, msg)) = FAIL.with(|f| f.borrow().clone()) {
        if k == n {
            return Err(Error::new(kind, msg));
        }
    }
    Ok(Sym(render(op, args.iter().map(|a| a.0.as_str()))))
}

pub fn render<'a>(op: &str, args: impl Iterator<Item = &'a str>) -> String {
    let mut s = format!("<{}", op);
    for a in args {
        s.push(' ');
        s.push_str(a);
    }
    s.push('>');
    s
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fix {
    Pre,
    Post,
    Bin(u32, bool), // precedence, right associative
    Fun,
}

#[derive(Clone, Debug)]
pub struct OpSpec {
    pub name: &'static str,
    pub aliases: Vec<&'static str>,
    pub fix: Fix,
}

impl OpSpec {
    pub fn tag(&self) -> String {
        let c = match self.fix {
            Fix::Pre => 'p',
            Fix::Post => 'q',
            Fix::Bin(..) => 'b',
            Fix::Fun => 'f',
        };
        format!("{}:{}", c, self.name)
    }
}

struct RecF(OpSpec);
impl Function<Sym> for RecF {
    fn name(&self) -> &str {
        self.0.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        if self.0.aliases.is_empty() {
            None
        } else {
            Some(&self.0.aliases)
        }
    }
    fn call(&self, args: &[Sym]) -> prexel::Result<Sym> {
        observed(&self.0.tag(), args)
    }
}
struct RecU(OpSpec);
impl UnaryFunction<Sym> for RecU {
    fn name(&self) -> &str {
        self.0.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        if self.0.aliases.is_empty() {
            None
        } else {
            Some(&self.0.aliases)
        }
    }
    fn notation(&self) -> Notation {
        if self.0.fix == Fix::Post {
            Notation::Postfix
        } else {
            Notation::Prefix
        }
    }
    fn call(&self, v: Sym) -> prexel::Result<Sym> {
        observed(&self.0.tag(), &[v])
    }
}
struct RecB(OpSpec);
impl BinaryFunction<Sym> for RecB {
    fn name(&self) -> &str {
        self.0.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        if self.0.aliases.is_empty() {
            None
        } else {
            Some(&self.0.aliases)
        }
    }
    fn precedence(&self) -> Precedence {
        match self.0.fix {
            Fix::Bin(p, _) => Precedence(p),
            _ => unreachable!(),
        }
    }
    fn associativity(&self) -> Associativity {
        match self.0.fix {
            Fix::Bin(_, true) => Associativity::Right,
            _ => Associativity::Left,
        }
    }
    fn call(&self, l: Sym, r: Sym) -> prexel::Result<Sym> {
        observed(&self.0.tag(), &[l, r])
    }
}

/// An operator table with names, and the context built from it.
#[derive(Clone, Debug)]
pub struct Table {
    pub ops: Vec<OpSpec>,
    pub vars: Vec<&'static str>,
    pub consts: Vec<&'static str>,
    pub implicit: bool,
    pub custom_call: bool,
    by_name: HashMap<String, Vec<usize>>,
}

pub const SYMS: &[&str] = &[
    "+", "-", "*", "/", "%", "^", "!", "~", "@", "#", "&", "|", "?", ":", "<", ">", "=", "**", "<=", ">=", "==", "!=", "<<", ">>",
    "&&", "||", "->", "<>", "++", "??", ":=", "|>", "/\\", "\\/", "\\", "$", "$$", "`", "`-", ";", ";;", "'", "''", "\"", "?.", "|'", "@~", "#\"",
    "-:", "^^", "%%", "=;", "!$",
];
pub const WORDS: &[&str] = &["mod", "and", "or", "xor", "not", "div", "of", "shl", "percent", "half"];
pub const FUNS: &[&str] = &["max", "f", "g", "Sum", "avg2", "random", "sin_x", "LOG"];
pub const VARS: &[&str] = &["x", "y", "foo", "Bar", "x1"];
pub const CONSTS: &[&str] = &["PI", "E", "tau"];

pub fn lower(s: &str) -> String {
    s.chars().flat_map(|c| c.to_lowercase()).collect()
}

impl Table {
    pub fn new(ops: Vec<OpSpec>, vars: Vec<&'static str>, consts: Vec<&'static str>, implicit: bool, custom_call: bool) -> Table {
        let mut by_name: HashMap<String, Vec<usize>> = HashMap::new();
        for (i, o) in ops.iter().enumerate() {
            for n in std::iter::once(&o.name).chain(o.aliases.iter()) {
                by_name.entry(lower(n)).or_default().push(i);
            }
        }
        Table { ops, vars, consts, implicit, custom_call, by_name }
    }

    /// A random table. `*` is always a binary operator (implicit multiplication needs one).
    pub fn random(r: &mut Rng, implicit: bool, custom_call: bool) -> Table {
        let mut pool: Vec<&'static str> = SYMS.iter().chain(WORDS).copied().filter(|s| *s != "*").collect();
        r.shuffle(&mut pool);
        let nlev = 1 + r.below(5);
        let right: Vec<bool> = (0..nlev).map(|_| r.chance(1, 3)).collect();
        // operators of one precedence usually share their associativity
        let mixed = r.chance(1, 4);
        let base = *r.pick(&[0, 0, 1, 2, 9, (1 << 31) - 3, u32::MAX - 5]);
        // precedences next to each other, or of any magnitude
        let mut level: Vec<u32> = (0..nlev as u32).map(|l| base + l).collect();
        if r.chance(1, 2) {
            for l in level.iter_mut() {
                *l = (r.next() as u32) >> r.below(32);
            }
            level.sort_unstable();
            for l in 1..nlev {
                level[l] = level[l].max(level[l - 1].saturating_add(1));
            }
        }
        let bin = |r: &mut Rng| {
            let l = r.below(nlev);
            Fix::Bin(level[l], if mixed { r.chance(1, 2) } else { right[l] })
        };
        let mut ops = vec![OpSpec { name: "*", aliases: vec![], fix: bin(r) }];
        for _ in 0..2 + r.below(5) {
            let name = pool.pop().unwrap();
            let aliases = if r.chance(1, 4) { vec![pool.pop().unwrap()] } else { vec![] };
            ops.push(OpSpec { name, aliases, fix: bin(r) });
        }
        // prefix operators, some sharing their symbol with a binary operator
        for _ in 0..1 + r.below(3) {
            let name = if r.chance(1, 2) {
                let c: Vec<&'static str> = ops
                    .iter()
                    .filter(|o| matches!(o.fix, Fix::Bin(..)))
                    .map(|o| o.name)
                    .filter(|n| !ops.iter().any(|p| p.fix == Fix::Pre && p.name == *n))
                    .collect();
                if c.is_empty() {
                    pool.pop().unwrap()
                } else {
                    *r.pick(&c)
                }
            } else {
                pool.pop().unwrap()
            };
            ops.push(OpSpec { name, aliases: vec![], fix: Fix::Pre });
        }
        for _ in 0..r.below(3) {
            ops.push(OpSpec { name: pool.pop().unwrap(), aliases: vec![], fix: Fix::Post });
        }
        let mut funs: Vec<&'static str> = FUNS.to_vec();
        r.shuffle(&mut funs);
        for _ in 0..1 + r.below(3) {
            let name = funs.pop().unwrap();
            let aliases = if r.chance(1, 3) { vec![funs.pop().unwrap()] } else { vec![] };
            ops.push(OpSpec { name, aliases, fix: Fix::Fun });
        }
        Table::new(ops, VARS[..1 + r.below(VARS.len())].to_vec(), CONSTS[..1 + r.below(CONSTS.len())].to_vec(), implicit, custom_call)
    }

    pub fn context(&self) -> DefaultContext<'static, Sym> {
        let mut c = DefaultContext::with_config(
            Config::new().with_implicit_mul(self.implicit).with_custom_function_call(self.custom_call),
        );
        for o in &self.ops {
            match o.fix {
                Fix::Fun => c.add_function(RecF(o.clone())).unwrap(),
                Fix::Bin(..) => c.add_binary_function(RecB(o.clone())).unwrap(),
                _ => c.add_unary_function(RecU(o.clone())).unwrap(),
            }
        }
        for k in &self.consts {
            c.add_constant(k, Sym(format!("k:{}", k))).unwrap();
        }
        for v in &self.vars {
            c.set_variable(v, Sym(format!("v:{}", v))).unwrap();
        }
        c
    }
    pub fn evaluator(&self) -> Evaluator<'static, Sym> {
        Evaluator::with_context(self.context())
    }
    pub fn find(&self, name: &str, f: impl Fn(Fix) -> bool) -> Option<&OpSpec> {
        self.by_name.get(&lower(name))?.iter().map(|i| &self.ops[*i]).find(|o| f(o.fix))
    }
    pub fn bin(&self, name: &str) -> Option<&OpSpec> {
        self.find(name, |f| matches!(f, Fix::Bin(..)))
    }
    pub fn pre(&self, name: &str) -> Option<&OpSpec> {
        self.find(name, |f| f == Fix::Pre)
    }
    pub fn post(&self, name: &str) -> Option<&OpSpec> {
        self.find(name, |f| f == Fix::Post)
    }
    pub fn fun(&self, name: &str) -> Option<&OpSpec> {
        self.find(name, |f| f == Fix::Fun)
    }
    pub fn is_op(&self, name: &str) -> bool {
        self.find(name, |f| f != Fix::Fun).is_some()
    }
    pub fn names(&self, f: impl Fn(Fix) -> bool) -> Vec<&'static str> {
        let mut v = vec![];
        for o in &self.ops {
            if f(o.fix) {
                v.push(o.name);
                v.extend(o.aliases.iter());
            }
        }
        v
    }
    pub fn describe(&self) -> String {
        format!(
            "ops={:?} vars={:?} consts={:?} implicit={} custom_call={}",
            self.ops.iter().map(|o| (o.name, &o.aliases, o.fix)).collect::<Vec<_>>(),
            self.vars,
            self.consts,
            self.implicit,
            self.custom_call
        )
    }
}

/// Lexical units of an expression.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Lex {
    Num(String),
    Var(String),
    Const(String),
    Fun(String),
    Op(String),
    Open(char),
    Close(char),
    Comma,
    Bad(String),
}

impl Lex {
    pub fn text(&self) -> String {
        match self {
            Lex::Num(s) | Lex::Var(s) | Lex::Const(s) | Lex::Fun(s) | Lex::Op(s) | Lex::Bad(s) => s.clone(),
            Lex::Open(c) | Lex::Close(c) => c.to_string(),
            Lex::Comma => ",".into(),
        }
    }
}

/// The tree an expression stands for.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ast {
    Num(String),
    Var(String),
    Const(String),
    Un(String, bool, Box<Ast>), // name, postfix?, operand
    Bin(String, Box<Ast>, Box<Ast>),
    Call(String, Vec<Ast>),
}

pub struct RefParser<'t> {
    pub t: &'t Table,
    pub lex: &'t [Lex],
    pos: usize,
    /// How many multiplication signs were implied.
    pub implied: usize,
    depth: usize,
}

fn close_of(c: char) -> char {
    match c {
        '(' => ')',
        '[' => ']',
        _ => '}',
    }
}

impl<'t> RefParser<'t> {
    pub fn new(t: &'t Table, lex: &'t [Lex]) -> Self {
        RefParser { t, lex, pos: 0, implied: 0, depth: 0 }
    }
    pub fn parse(&mut self) -> Option<Ast> {
        let a = self.expr(0)?;
        if self.pos == self.lex.len() {
            Some(a)
        } else {
            None
        }
    }
    fn peek(&self) -> Option<&'t Lex> {
        self.lex.get(self.pos)
    }
    fn expr(&mut self, min: u64) -> Option<Ast> {
        self.depth += 1;
        if self.depth > 3000 {
            return None;
        }
        let mut left = self.operand()?;
        loop {
            let (name, implied) = match self.peek() {
                Some(Lex::Op(n)) if self.t.bin(n).is_some() => (n.clone(), false),
                Some(l) if self.t.implicit && self.pos > 0 => {
                    let next_ok = match self.lex[self.pos - 1] {
                        Lex::Num(_) => matches!(l, Lex::Fun(_) | Lex::Const(_) | Lex::Var(_) | Lex::Open(_)),
                        Lex::Close(_) => matches!(l, Lex::Num(_) | Lex::Fun(_) | Lex::Const(_) | Lex::Var(_) | Lex::Open(_)),
                        _ => false,
                    };
                    if !next_ok {
                        break;
                    }
                    ("*".to_string(), true)
                }
                _ => break,
            };
            let (p, right) = match self.t.bin(&name)?.fix {
                Fix::Bin(p, r) => (p as u64, r),
                _ => unreachable!(),
            };
            if p < min {
                break;
            }
            if implied {
                self.implied += 1;
            } else {
                self.pos += 1;
            }
            let rhs = self.expr(if right { p } else { p + 1 })?;
            left = Ast::Bin(name, Box::new(left), Box::new(rhs));
        }
        self.depth -= 1;
        Some(left)
    }
    /// prefix* primary postfix*, prefix operators binding first.
    fn operand(&mut self) -> Option<Ast> {
        let mut pres = vec![];
        while let Some(Lex::Op(n)) = self.peek() {
            self.t.pre(n)?;
            pres.push(n.clone());
            self.pos += 1;
        }
        let mut a = match self.peek()? {
            Lex::Num(s) => {
                self.pos += 1;
                Ast::Num(s.clone())
            }
            Lex::Var(s) => {
                self.pos += 1;
                Ast::Var(s.clone())
            }
            Lex::Const(s) => {
                self.pos += 1;
                Ast::Const(s.clone())
            }
            Lex::Open(c) => {
                self.pos += 1;
                let a = self.expr(0)?;
                if self.peek() != Some(&Lex::Close(close_of(*c))) {
                    return None;
                }
                self.pos += 1;
                a
            }
            Lex::Fun(f) => {
                self.pos += 1;
                let c = match self.peek() {
                    Some(Lex::Open('(')) => '(',
                    Some(Lex::Open(c)) if self.t.custom_call => *c,
                    _ => return None,
                };
                self.pos += 1;
                let mut args = vec![];
                if self.peek() == Some(&Lex::Close(close_of(c))) {
                    self.pos += 1;
                } else {
                    loop {
                        args.push(self.expr(0)?);
                        match self.peek()? {
                            Lex::Comma => self.pos += 1,
                            Lex::Close(k) if *k == close_of(c) => {
                                self.pos += 1;
                                break;
                            }
                            _ => return None,
                        }
                    }
                }
                Ast::Call(f.clone(), args)
            }
            _ => return None,
        };
        while let Some(n) = pres.pop() {
            a = Ast::Un(n, false, Box::new(a));
        }
        while let Some(Lex::Op(n)) = self.peek() {
            if self.t.bin(n).is_some() || self.t.post(n).is_none() {
                break;
            }
            self.pos += 1;
            a = Ast::Un(n.clone(), true, Box::new(a));
        }
        Some(a)
    }
}

impl Ast {
    /// The value, and the calls in evaluation order.
    pub fn value(&self, t: &Table, calls: &mut Vec<Call>) -> String {
        let (op, args) = match self {
            Ast::Num(s) => return s.clone(),
            Ast::Var(s) => return format!("v:{}", s),
            Ast::Const(s) => {
                let k = t.consts.iter().find(|k| lower(k) == lower(s)).unwrap();
                return format!("k:{}", k);
            }
            Ast::Un(n, post, a) => {
                let o = if *post { t.post(n) } else { t.pre(n) }.unwrap();
                (o.tag(), vec![a.value(t, calls)])
            }
            Ast::Bin(n, l, r) => {
                let lv = l.value(t, calls);
                let rv = r.value(t, calls);
                (t.bin(n).unwrap().tag(), vec![lv, rv])
            }
            Ast::Call(n, xs) => {
                let vs: Vec<String> = xs.iter().map(|x| x.value(t, calls)).collect();
                (t.fun(n).unwrap().tag(), vs)
            }
        };
        let v = render(&op, args.iter().map(|s| s.as_str()));
        calls.push(Call { op, args });
        v
    }
    pub fn size(&self) -> usize {
        match self {
            Ast::Num(_) | Ast::Var(_) | Ast::Const(_) => 1,
            Ast::Un(_, _, a) => 1 + a.size(),
            Ast::Bin(_, l, r) => 1 + l.size() + r.size(),
            Ast::Call(_, xs) => 1 + xs.iter().map(|x| x.size()).sum::<usize>(),
        }
    }
}

pub fn gen_num(r: &mut Rng) -> String {
    if r.chance(1, 500) {
        let n = 40 + r.below(400);
        return (0..n).map(|k| if k == 17 && n % 2 == 0 { '.' } else { (b'1' + r.below(9) as u8) as char }).collect();
    }
    match r.below(6) {
        0 => format!("{}.{}", r.below(30), r.below(100)),
        1 => "0".into(),
        _ => r.below(1000).to_string(),
    }
}

pub fn case_mix(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => s.to_string(),
    }
}

/// A random tree over the table.
pub fn gen_ast(r: &mut Rng, t: &Table, size: usize) -> Ast {
    if size <= 1 || r.chance(1, 12) {
        return match r.below(4) {
            1 if t.consts.is_empty() => Ast::Num(gen_num(r)),
            0 => Ast::Var(r.pick(&t.vars).to_string()),
            1 => {
                let k = *r.pick(&t.consts);
                Ast::Const(case_mix(r, k))
            }
            _ => Ast::Num(gen_num(r)),
        };
    }
    let pres = t.names(|f| f == Fix::Pre);
    let posts = t.names(|f| f == Fix::Post);
    let bins = t.names(|f| matches!(f, Fix::Bin(..)));
    let funs = t.names(|f| f == Fix::Fun);
    match r.below(10) {
        0 | 1 if !pres.is_empty() => {
            let n = *r.pick(&pres);
            Ast::Un(case_mix(r, n), false, Box::new(gen_ast(r, t, size - 1)))
        }
        2 if !posts.is_empty() => {
            let n = *r.pick(&posts);
            Ast::Un(case_mix(r, n), true, Box::new(gen_ast(r, t, size - 1)))
        }
        3 | 4 if !funs.is_empty() => {
            let n = *r.pick(&funs);
            let k = if r.chance(1, 24) { 5 + r.below(30) } else { r.below(5) };
            let mut args = vec![];
            for _ in 0..k {
                let sz = 1 + r.below((size - 1) / k.max(1) + 1);
                args.push(gen_ast(r, t, sz));
            }
            Ast::Call(case_mix(r, n), args)
        }
        _ => {
            let n = *r.pick(&bins);
            let k = 1 + r.below(size.max(2) - 1);
            Ast::Bin(case_mix(r, n), Box::new(gen_ast(r, t, k)), Box::new(gen_ast(r, t, size - k)))
        }
    }
}

/// A large tree: a call of hundreds of arguments, a long chain, or deep nesting.
pub fn gen_big(r: &mut Rng, t: &Table) -> Ast {
    let bins = t.names(|f| matches!(f, Fix::Bin(..)));
    let pres = t.names(|f| f == Fix::Pre);
    let posts = t.names(|f| f == Fix::Post);
    let funs = t.names(|f| f == Fix::Fun);
    let small = |r: &mut Rng| {
        let k = 1 + r.below(2);
        gen_ast(r, t, k)
    };
    match r.below(4) {
        0 | 1 => {
            let n = if r.chance(1, 2) { 30 + r.below(100) } else { *r.pick(&[60, 127, 128, 255, 256, 257, 300, 520]) };
            Ast::Call(r.pick(&funs).to_string(), (0..n).map(|_| small(r)).collect())
        }
        2 => {
            let mut a = small(r);
            for _ in 0..60 + r.below(240) {
                let b = small(r);
                let n = r.pick(&bins).to_string();
                a = if r.chance(4, 5) { Ast::Bin(n, Box::new(a), Box::new(b)) } else { Ast::Bin(n, Box::new(b), Box::new(a)) };
            }
            a
        }
        _ => {
            let mut a = small(r);
            for _ in 0..60 + r.below(200) {
                a = match r.below(4) {
                    0 => Ast::Un(r.pick(&pres).to_string(), false, Box::new(a)),
                    1 if !posts.is_empty() => Ast::Un(r.pick(&posts).to_string(), true, Box::new(a)),
                    2 => Ast::Call(r.pick(&funs).to_string(), if r.chance(1, 2) { vec![a] } else { vec![small(r), a] }),
                    _ => Ast::Bin(r.pick(&bins).to_string(), Box::new(small(r)), Box::new(a)),
                }
            }
            a
        }
    }
}

/// A long expression without groups: runs of operators, alike or mixed, between small operands.
pub fn gen_flat(r: &mut Rng, t: &Table) -> Vec<Lex> {
    let bins = t.names(|f| matches!(f, Fix::Bin(..)));
    let pres = t.names(|f| f == Fix::Pre);
    let posts = t.names(|f| f == Fix::Post);
    let plain = Style { redundant: 0, kinds: false, omit_mul: 0 };
    let n = 10 + r.below(300);
    let stay = *r.pick(&[0, 50, 90, 99]);
    let mut op = *r.pick(&bins);
    let mut out = vec![];
    for k in 0..n {
        if k > 0 {
            if r.below(100) >= stay {
                op = *r.pick(&bins);
            }
            out.push(Lex::Op(op.to_string()));
        }
        let run = if r.chance(1, 100) { r.below(200) } else { r.below(2) };
        for _ in 0..run {
            if !pres.is_empty() && r.chance(1, 3) {
                out.push(Lex::Op(r.pick(&pres).to_string()));
            }
        }
        let size = 1 + r.below(3) / 2;
        let leaf = match gen_ast(r, t, size) {
            a @ (Ast::Bin(..) | Ast::Un(..)) => {
                out.push(Lex::Open('('));
                out.extend(to_lex(r, t, &a, &plain).0);
                out.push(Lex::Close(')'));
                continue;
            }
            a => a,
        };
        out.extend(to_lex(r, t, &leaf, &plain).0);
        if !posts.is_empty() && r.chance(1, 5) {
            out.push(Lex::Op(r.pick(&posts).to_string()));
        }
    }
    out
}

/// Puts one operand of a sequence into many groups.
pub fn wrap_deeply(r: &mut Rng, lex: &mut Vec<Lex>, kinds: bool) {
    let at: Vec<usize> = (0..lex.len()).filter(|i| matches!(lex[*i], Lex::Num(_) | Lex::Var(_) | Lex::Const(_))).collect();
    if at.is_empty() {
        return;
    }
    let i = *r.pick(&at);
    let cs: Vec<char> = (0..20 + r.below(500)).map(|_| open_kind(r, kinds)).collect();
    let mut new: Vec<Lex> = cs.iter().map(|c| Lex::Open(*c)).collect();
    new.push(lex[i].clone());
    new.extend(cs.iter().rev().map(|c| Lex::Close(close_of(*c))));
    lex.splice(i..=i, new);
}

/// How a rendering of a tree is varied.
pub struct Style {
    /// Chance (of 100) of redundant grouping around a sub-expression.
    pub redundant: usize,
    /// Use all kinds of grouping symbols.
    pub kinds: bool,
    /// Chance (of 100) of leaving out a multiplication sign where that is possible.
    pub omit_mul: usize,
}

pub fn open_kind(r: &mut Rng, kinds: bool) -> char {
    if kinds {
        *r.pick(&['(', '[', '{'])
    } else {
        '('
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    /// Operand of a binary operator of at least this precedence.
    Min(u64),
    /// Left operand of a binary operator of this precedence: the associativity of the left one of
    /// two neighbours of equal precedence decides.
    Left(u64),
    /// Operand of a prefix operator: a primary, or another prefix operator.
    PreOperand,
    /// Operand of a postfix operator.
    PostOperand,
}

/// Renders with the groups that are needed, and random redundant ones. Returns the positions of
/// omitted `*` as a count.
pub fn to_lex(r: &mut Rng, t: &Table, a: &Ast, st: &Style) -> (Vec<Lex>, usize) {
    let mut out = vec![];
    let mut omitted = 0;
    emit(r, t, a, st, Ctx::Min(0), &mut out, &mut omitted);
    (out, omitted)
}

fn emit(r: &mut Rng, t: &Table, a: &Ast, st: &Style, cx: Ctx, out: &mut Vec<Lex>, omitted: &mut usize) {
    let needs = match a {
        Ast::Num(_) | Ast::Var(_) | Ast::Const(_) | Ast::Call(..) => false,
        Ast::Un(_, false, _) => false, // prefix binds first everywhere
        Ast::Un(_, true, _) => cx == Ctx::PreOperand,
        Ast::Bin(n, ..) => match (t.bin(n).unwrap().fix, cx) {
            (Fix::Bin(p, _), Ctx::Min(m)) => (p as u64) < m,
            (Fix::Bin(p, right), Ctx::Left(m)) => (p as u64) < m || (p as u64 == m && right),
            _ => true,
        },
    };
    let mut wraps = if needs { 1 } else { 0 };
    while r.below(100) < st.redundant && wraps < 4 {
        wraps += 1;
    }
    let mut stack = vec![];
    for _ in 0..wraps {
        let c = open_kind(r, st.kinds);
        out.push(Lex::Open(c));
        stack.push(c);
    }
    match a {
        Ast::Num(s) => out.push(Lex::Num(s.clone())),
        Ast::Var(s) => out.push(Lex::Var(s.clone())),
        Ast::Const(s) => out.push(Lex::Const(s.clone())),
        Ast::Un(n, false, x) => {
            out.push(Lex::Op(n.clone()));
            emit(r, t, x, st, Ctx::PreOperand, out, omitted);
        }
        Ast::Un(n, true, x) => {
            emit(r, t, x, st, Ctx::PostOperand, out, omitted);
            out.push(Lex::Op(n.clone()));
        }
        Ast::Bin(n, l, rr) => {
            let (p, right) = match t.bin(n).unwrap().fix {
                Fix::Bin(p, r) => (p as u64, r),
                _ => unreachable!(),
            };
            emit(r, t, l, st, Ctx::Left(p), out, omitted);
            let at = out.len();
            out.push(Lex::Op(n.clone()));
            emit(r, t, rr, st, Ctx::Min(if right { p } else { p + 1 }), out, omitted);
            if n == "*" && r.below(100) < st.omit_mul {
                let ok = match (&out[at - 1], &out[at + 1]) {
                    (Lex::Num(_), Lex::Fun(_) | Lex::Const(_) | Lex::Var(_) | Lex::Open(_)) => true,
                    (Lex::Close(_), Lex::Num(_) | Lex::Fun(_) | Lex::Const(_) | Lex::Var(_) | Lex::Open(_)) => true,
                    _ => false,
                };
                if ok {
                    out.remove(at);
                    *omitted += 1;
                }
            }
        }
        Ast::Call(n, xs) => {
            out.push(Lex::Fun(n.clone()));
            let c = open_kind(r, st.kinds && t.custom_call);
            out.push(Lex::Open(c));
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    out.push(Lex::Comma);
                }
                emit(r, t, x, st, Ctx::Min(0), out, omitted);
            }
            out.push(Lex::Close(close_of(c)));
        }
    }
    while let Some(c) = stack.pop() {
        out.push(Lex::Close(close_of(c)));
    }
}

/// Whether two adjacent units need whitespace between them to stay two units.
fn needs_space(_t: &Table, a: &Lex, b: &Lex) -> bool {
    let (ta, tb) = (a.text(), b.text());
    let (ca, cb) = (ta.chars().last().unwrap(), tb.chars().next().unwrap());
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    if matches!(a, Lex::Open(_) | Lex::Close(_)) || matches!(b, Lex::Open(_) | Lex::Close(_)) {
        return false;
    }
    if matches!(a, Lex::Bad(_)) || matches!(b, Lex::Bad(_)) {
        return true;
    }
    if word(ca) && word(cb) {
        // a name may directly follow a number
        return !(matches!(a, Lex::Num(_)) && ca.is_ascii_digit() && !cb.is_ascii_digit());
    }
    if matches!(a, Lex::Num(_)) && cb == '.' {
        return true;
    }
    false
}

fn symbolic(l: &Lex) -> bool {
    matches!(l, Lex::Op(_) | Lex::Comma) && l.text().chars().all(|c| !(c.is_ascii_alphanumeric() || c == '_'))
}

/// Whether a run of symbols, read longest operator first, is exactly these units.
fn reads_as(t: &Table, run: &[String]) -> bool {
    let s: Vec<char> = run.concat().chars().collect();
    if run.len() > 1 && t.is_op(&s.iter().collect::<String>()) {
        return false;
    }
    let mut pos = 0;
    for piece in run {
        let n = piece.chars().count();
        let longest = (1..=s.len() - pos)
            .rev()
            .find(|k| {
                let p: String = s[pos..pos + k].iter().collect();
                p == "," || t.is_op(&p)
            })
            .unwrap_or(0);
        if longest != n {
            return false;
        }
        pos += n;
    }
    true
}

pub fn spaced(lex: &[Lex]) -> String {
    lex.iter().map(|l| l.text()).collect::<Vec<_>>().join(" ")
}

/// Text with random whitespace between units (none at all where that is safe).
pub fn join(r: &mut Rng, t: &Table, lex: &[Lex]) -> String {
    let ws = [" ", "  ", "\t", "\n", " \t ", "\u{a0}", "\u{2003}", "\r\n"];
    let dense = r.below(3); // 0 dense, 1 mixed, 2 single spaces
    let mut s = String::new();
    let mut run: Vec<String> = vec![];
    if r.chance(1, 8) {
        s.push_str(ws[r.below(ws.len())]);
    }
    for (i, l) in lex.iter().enumerate() {
        if i > 0 {
            let both = symbolic(&lex[i - 1]) && symbolic(l);
            let must = if both {
                let mut longer = run.clone();
                longer.push(l.text());
                !reads_as(t, &longer)
            } else {
                needs_space(t, &lex[i - 1], l)
            };
            let mut tight = false;
            match dense {
                0 if !must => tight = true,
                1 if !must && r.chance(1, 2) => tight = true,
                2 => s.push(' '),
                _ => s.push_str(if r.chance(3, 4) { " " } else { ws[r.below(ws.len())] }),
            }
            if !(tight && both) {
                run.clear();
            }
        }
        if symbolic(l) {
            run.push(l.text());
        } else {
            run.clear();
        }
        s.push_str(&l.text());
    }
    if r.chance(1, 8) {
        s.push_str(ws[r.below(ws.len())]);
    }
    s
}

/// Any unit of the table's vocabulary.
pub fn any_lex(r: &mut Rng, t: &Table) -> Lex {
    let ops = t.names(|f| f != Fix::Fun);
    let funs = t.names(|f| f == Fix::Fun);
    match r.below(16) {
        0..=3 => Lex::Num(gen_num(r)),
        4 => Lex::Var(r.pick(&t.vars).to_string()),
        5 => Lex::Const(r.pick(&t.consts).to_string()),
        6 | 7 => Lex::Fun(r.pick(&funs).to_string()),
        8..=10 => Lex::Op(r.pick(&ops).to_string()),
        11 => Lex::Open(open_kind(r, true)),
        12 => Lex::Close(close_of(open_kind(r, true))),
        13 => Lex::Open('('),
        14 => Lex::Close(')'),
        _ => {
            if r.chance(1, 8) {
                let bad: Vec<&str> = ["zz", "$", "\\", "é", "nope1", "'"].into_iter().filter(|s| !t.is_op(s)).collect();
                Lex::Bad(r.pick(&bad).to_string())
            } else {
                Lex::Comma
            }
        }
    }
}

/// Breaks (usually) a well-formed sequence.
pub fn mutate(r: &mut Rng, t: &Table, lex: &mut Vec<Lex>) {
    for _ in 0..1 + r.below(3) {
        let n = lex.len();
        match r.below(6) {
            0 if n > 0 => {
                lex.remove(r.below(n));
            }
            1 => {
                let l = any_lex(r, t);
                lex.insert(r.below(n + 1), l);
            }
            2 if n > 1 => {
                let (i, j) = (r.below(n), r.below(n));
                lex.swap(i, j);
            }
            3 if n > 0 => {
                let l = lex[r.below(n)].clone();
                lex.insert(r.below(n + 1), l);
            }
            4 if n > 0 => {
                let l = any_lex(r, t);
                let i = r.below(n);
                lex[i] = l;
            }
            5 if n > 1 => {
                // move a unit elsewhere
                let l = lex.remove(r.below(n));
                lex.insert(r.below(n), l);
            }
            _ => {}
        }
    }
}

/// The tokens of a well-formed sequence, with operators classified by position.
pub fn expected_tokens(t: &Table, lex: &[Lex]) -> Vec<Token<Sym>> {
    let mut after_operand = false;
    let mut v = vec![];
    for l in lex {
        match l {
            Lex::Num(s) => {
                v.push(Token::Number(Sym(s.clone())));
                after_operand = true;
            }
            Lex::Var(s) => {
                v.push(Token::Variable(s.clone()));
                after_operand = true;
            }
            Lex::Const(s) => {
                v.push(Token::Constant(s.clone()));
                after_operand = true;
            }
            Lex::Fun(s) => {
                v.push(Token::Function(s.clone()));
                after_operand = false;
            }
            Lex::Op(s) => {
                if !after_operand {
                    v.push(Token::UnaryOperator(s.clone()));
                } else if t.bin(s).is_some() {
                    v.push(Token::BinaryOperator(s.clone()));
                    after_operand = false;
                } else {
                    v.push(Token::UnaryOperator(s.clone()));
                }
            }
            Lex::Open(c) => {
                v.push(Token::GroupingOpen(*c));
                after_operand = false;
            }
            Lex::Close(c) => {
                v.push(Token::GroupingClose(*c));
                after_operand = true;
            }
            Lex::Comma => {
                v.push(Token::Comma);
                after_operand = false;
            }
            Lex::Bad(s) => v.push(Token::Unknown(s.clone())),
        }
    }
    v
}
