//! Assertions: every `assert` of the source gives one assertion per instance, which fails exactly when its expression is
//! false and whose message shows that expression.
use super::surface::{block, noise};
use crate::bv::Bv;
use crate::runner::*;
use crate::spadec::{self, File, Level, Opts};
use crate::tape::{self, Gen};
use crate::vsim::Sim;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
enum E {
    Var(usize),
    Lit(u8, String),
    /// wrapping sum or difference
    Add(Box<E>, Box<E>),
    Sub(Box<E>, Box<E>),
    /// element of a byte string
    Byte(Vec<u8>, String, usize),
}
#[derive(Clone, Debug)]
enum C {
    Cmp(&'static str, E, E),
    Bin(&'static str, Box<C>, Box<C>),
    Not(Box<C>),
    Lit(bool),
    Const(E, E),
}
#[derive(Clone, Debug)]
enum S {
    Let(usize, E),
    Assert(usize, C),
    Call(usize, usize, E, E),
    Reg(usize, u8, E),
    /// a block with statements of its own as the value
    Block(usize, Vec<S>, E),
    /// parameters, body, result, arguments
    Lambda(usize, [usize; 2], Vec<S>, E, E, E),
    Stage,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Fun,
    Inline,
    Generic,
    Method,
    Entity,
    Pipe(usize),
}
struct Unit {
    kind: K,
    nvars: usize,
    body: Vec<S>,
    ret: E,
}

struct B<'a> {
    g: &'a mut Gen,
    next: usize,
    units: Vec<Unit>,
    bytes: bool,
}
impl B<'_> {
    fn e(&mut self, vars: &[usize], d: usize) -> E {
        match self.g.below(if d == 0 { 6 } else { 10 }) {
            0 => {
                let c = *self.g.pick(&[b'"', b'%', b'\'', b'\\', b'a', b'/', b'*', b' ', b'0', b'{']);
                match c {
                    b'\'' => E::Lit(c, "b'\\''".into()),
                    b'\\' => E::Lit(b'\n', "b'\\n'".into()),
                    c => E::Lit(c, format!("b'{}'", c as char)),
                }
            }
            1 => {
                let v = self.g.below(256) as u8;
                E::Lit(v, if self.g.bool() { format!("0x{v:X}u8") } else { format!("{v}u8") })
            }
            2 if self.bytes => {
                let parts = ["%d", "\\\"", "//", "/*", "\\n", "a", "%", "$", "\\t", "`"];
                let n = self.g.usize(1, 4);
                let t: String = (0..n).map(|_| *self.g.pick(&parts)).collect();
                let v = t.replace("\\\"", "\"").replace("\\n", "\n").replace("\\t", "\t").into_bytes();
                let i = self.g.usize(0, v.len() - 1);
                E::Byte(v, t, i)
            }
            3..=5 | 2 => E::Var(*self.g.pick(vars)),
            6 | 7 => E::Sub(Box::new(self.e(vars, d - 1)), Box::new(self.e(vars, d - 1))),
            _ => E::Add(Box::new(self.e(vars, d - 1)), Box::new(self.e(vars, d - 1))),
        }
    }
    /// an expression that certainly has eight bits
    fn sized(&mut self, vars: &[usize], d: usize) -> E {
        let e = self.e(vars, d);
        let v = E::Var(*self.g.pick(vars));
        if has_var(&e) { e } else { E::Add(Box::new(v), Box::new(e)) }
    }
    fn c(&mut self, vars: &[usize], d: usize) -> C {
        match self.g.below(if d == 0 { 9 } else { 14 }) {
            0..=7 => {
                let op = *self.g.pick(&["==", "!=", "<", ">", "<=", ">="]);
                let a = self.sized(vars, 1);
                let b = match self.e(vars, 1) {
                    E::Lit(v, t) if self.g.bool() => E::Lit(v, t.strip_suffix("u8").map_or(t.clone(), |x| x.to_string())),
                    b => b,
                };
                C::Cmp(op, a, b)
            }
            8 => match self.g.below(4) {
                0 => C::Lit(true),
                1 => C::Const(E::Lit(3, "3u8".into()), E::Lit(3, "3".into())),
                _ => C::Cmp("==", E::Var(vars[0]), E::Var(vars[0])),
            },
            9 => C::Not(Box::new(self.c(vars, d - 1))),
            _ => {
                let op = *self.g.pick(&["&&", "||", "^^"]);
                C::Bin(op, Box::new(self.c(vars, d - 1)), Box::new(self.c(vars, d - 1)))
            }
        }
    }
    fn assert(&mut self, vars: &[usize]) -> S {
        let d = self.g.usize(0, 2);
        let c = self.c(vars, d);
        let id = self.next;
        self.next += 1;
        S::Assert(id, c)
    }
    fn body(&mut self, kind: K, vars: &mut Vec<usize>, nvars: &mut usize, d: usize, callable: &[usize]) -> Vec<S> {
        let mut v = vec![];
        for _ in 0..self.g.usize(1, 4) {
            match self.g.below(10) {
                0..=3 => v.push(self.assert(vars)),
                4 => {
                    let e = self.sized(vars, 2);
                    v.push(S::Let(*nvars, e));
                    vars.push(*nvars);
                    *nvars += 1;
                }
                5 if kind == K::Entity && d > 0 => {
                    let n = *nvars;
                    *nvars += 1;
                    vars.push(n);
                    let e = self.sized(vars, 2);
                    v.push(S::Reg(n, self.g.below(256) as u8, e));
                }
                6 if d > 0 => {
                    let mut inner = vars.clone();
                    let s = self.body(K::Fun, &mut inner, nvars, d - 1, callable);
                    let e = self.sized(&inner, 1);
                    v.push(S::Block(*nvars, s, e));
                    vars.push(*nvars);
                    *nvars += 1;
                }
                7 if d > 0 => {
                    let ps = [*nvars, *nvars + 1];
                    *nvars += 2;
                    let mut inner = ps.to_vec();
                    if self.g.bool() {
                        inner.push(*self.g.pick(vars));
                    }
                    let mut s = vec![self.assert(&inner)];
                    if self.g.bool() {
                        s.push(self.assert(&inner));
                    }
                    let e = self.sized(&inner, 1);
                    let (a, b) = (self.sized(vars, 1), self.sized(vars, 1));
                    v.push(S::Lambda(*nvars, ps, s, e, a, b));
                    vars.push(*nvars);
                    *nvars += 1;
                }
                8 | 9 if !callable.is_empty() => {
                    let u = *self.g.pick(callable);
                    for _ in 0..self.g.usize(1, 2) {
                        let (a, b) = (self.sized(vars, 1), self.sized(vars, 1));
                        v.push(S::Call(*nvars, u, a, b));
                        vars.push(*nvars);
                        *nvars += 1;
                    }
                }
                _ => {}
            }
        }
        v
    }
    fn unit(&mut self, top: bool) {
        let kind = match self.g.below(8) {
            _ if top => K::Entity,
            0 | 1 => K::Fun,
            2 => K::Inline,
            3 => K::Generic,
            4 => K::Method,
            5 | 6 => K::Entity,
            _ => K::Pipe(self.g.usize(1, 3)),
        };
        let comb = |k: &K| matches!(k, K::Fun | K::Inline | K::Generic | K::Method);
        let callable: Vec<usize> = (0..self.units.len())
            .filter(|u| match kind {
                K::Entity => true,
                K::Pipe(_) => !matches!(self.units[*u].kind, K::Pipe(_)),
                _ => comb(&self.units[*u].kind),
            })
            .collect();
        let mut vars = vec![0, 1];
        let mut nvars = 2;
        let mut body = vec![];
        if let K::Pipe(d) = kind {
            for k in 0..=d {
                body.extend(self.body(kind, &mut vars, &mut nvars, 1, &callable));
                if k < d {
                    body.push(S::Stage);
                }
            }
        } else {
            body = self.body(kind, &mut vars, &mut nvars, 2, &callable);
        }
        let ret = self.sized(&vars, 1);
        self.units.push(Unit { kind, nvars, body, ret });
    }
}
fn has_var(e: &E) -> bool {
    match e {
        E::Var(_) => true,
        E::Add(a, b) | E::Sub(a, b) => has_var(a) || has_var(b),
        E::Lit(..) => false,
        E::Byte(..) => true,
    }
}

// ---- text
fn e_toks(e: &E, v: &mut Vec<String>) {
    match e {
        E::Var(0) => v.push("a".into()),
        E::Var(1) => v.push("b".into()),
        E::Var(i) => v.push(format!("v{i}")),
        E::Lit(_, t) => v.push(t.clone()),
        E::Byte(_, t, i) => v.extend([format!("b\"{t}\""), "[".into(), i.to_string(), "]".into()]),
        E::Add(a, b) | E::Sub(a, b) => {
            v.push("(".into());
            e_toks(a, v);
            v.push(if matches!(e, E::Add(..)) { "+." } else { "-." }.into());
            e_toks(b, v);
            v.push(")".into());
        }
    }
}
fn c_toks(c: &C, top: bool, v: &mut Vec<String>) {
    let paren = !top && matches!(c, C::Cmp(..) | C::Bin(..) | C::Const(..));
    if paren {
        v.push("(".into());
    }
    match c {
        C::Cmp(op, a, b) => {
            e_toks(a, v);
            v.push(op.to_string());
            e_toks(b, v);
        }
        C::Const(a, b) => {
            e_toks(a, v);
            v.push("==".into());
            e_toks(b, v);
        }
        C::Bin(op, a, b) => {
            c_toks(a, false, v);
            v.push(op.to_string());
            c_toks(b, false, v);
        }
        C::Not(a) => {
            v.push("!".into());
            c_toks(a, false, v);
        }
        C::Lit(b) => v.push(b.to_string()),
    }
    if paren {
        v.push(")".into());
    }
}
struct T<'a> {
    g: &'a mut Gen,
    out: String,
    /// assertion -> byte range of its expression
    at: HashMap<usize, (usize, usize)>,
    units: &'a [Unit],
    wild: bool,
}
impl T<'_> {
    fn gap(&mut self) -> String {
        if !self.wild {
            return " ".into();
        }
        match self.g.below(14) {
            0 => "\n".into(),
            1 => "\t".into(),
            2 => "  ".into(),
            3 => format!(" {} ", block(self.g, 1)),
            4 => format!(" // {}\n", noise(self.g)),
            _ => " ".into(),
        }
    }
    fn e(&mut self, e: &E) -> String {
        let mut v = vec![];
        e_toks(e, &mut v);
        v.join(" ")
    }
    fn body(&mut self, b: &[S], ind: usize) {
        let pad = "    ".repeat(ind);
        for s in b {
            self.out.push_str(&pad);
            match s {
                S::Let(v, e) => {
                    let e = self.e(e);
                    self.out.push_str(&format!("let v{v} = {e};\n"));
                }
                S::Assert(id, c) => {
                    let mut v = vec![];
                    c_toks(c, true, &mut v);
                    if self.g.chance(1, 4) {
                        v.insert(0, "(".into());
                        v.push(")".into());
                    }
                    if self.g.chance(1, 12) {
                        self.out.push_str(&format!("{} ", block(self.g, 1)));
                    }
                    self.out.push_str("assert");
                    let gap = self.gap();
                    self.out.push_str(&gap);
                    let from = self.out.len();
                    for (i, t) in v.iter().enumerate() {
                        if i > 0 {
                            let gap = self.gap();
                            self.out.push_str(&gap);
                        }
                        self.out.push_str(t);
                    }
                    self.at.insert(*id, (from, self.out.len()));
                    if self.g.chance(1, 5) {
                        let gap = self.gap();
                        self.out.push_str(&gap);
                    }
                    self.out.push_str(";");
                    self.out.push_str(if self.g.chance(1, 5) { " " } else { "\n" });
                }
                S::Call(v, u, a, b) => {
                    let (a, b) = (self.e(a), self.e(b));
                    let t = match self.units[*u].kind {
                        K::Fun | K::Inline => format!("u{u}({a}, {b})"),
                        K::Generic => {
                            let x = *self.g.pick(&["true", "3u4", "(false, 1u2)"]);
                            format!("u{u}({a}, {b}, {x})")
                        }
                        K::Method => format!("S{u}({a}).u{u}({b})"),
                        K::Entity => format!("inst u{u}(clk, {a}, {b})"),
                        K::Pipe(d) => format!("inst({d}) u{u}(clk, {a}, {b})"),
                    };
                    self.out.push_str(&format!("let v{v} = {t};\n"));
                }
                S::Reg(v, i, e) => {
                    let e = self.e(e);
                    self.out.push_str(&format!("reg(clk) v{v}: uint<8> initial({i}) = {e};\n"));
                }
                S::Block(v, s, e) => {
                    self.out.push_str(&format!("let v{v} = {{\n"));
                    self.body(s, ind + 1);
                    let e = self.e(e);
                    self.out.push_str(&format!("{pad}    {e}\n{pad}}};\n"));
                }
                S::Lambda(v, p, s, e, a, b) => {
                    self.out.push_str(&format!("let v{v} = (fn |v{}, v{}| {{\n", p[0], p[1]));
                    self.body(s, ind + 1);
                    let (e, a, b) = (self.e(e), self.e(a), self.e(b));
                    self.out.push_str(&format!("{pad}    {e}\n{pad}}}).call(({a}, {b}));\n"));
                }
                S::Stage => self.out.push_str("reg;\n"),
            }
        }
    }
    fn unit(&mut self, u: usize, name: &str) {
        let units = self.units;
        let unit = &units[u];
        let (open, close) = match unit.kind {
            K::Fun => (format!("fn {name}(a: uint<8>, b: uint<8>) -> uint<8> {{\n"), "}\n"),
            K::Inline => (format!("#[inline]\nfn {name}(a: uint<8>, b: uint<8>) -> uint<8> {{\n"), "}\n"),
            K::Generic => (format!("fn {name}<T>(a: uint<8>, b: uint<8>, t: T) -> uint<8> {{\n"), "}\n"),
            K::Method => (format!("struct S{u} {{ x: uint<8> }}\nimpl S{u} {{ fn {name}(self, b: uint<8>) -> uint<8> {{\n    let a = self.x;\n"), "} }\n"),
            K::Entity => (format!("entity {name}(clk: clock, a: uint<8>, b: uint<8>) -> uint<8> {{\n"), "}\n"),
            K::Pipe(d) => (format!("pipeline({d}) {name}(clk: clock, a: uint<8>, b: uint<8>) -> uint<8> {{\n"), "}\n"),
        };
        self.out.push_str(&open);
        self.body(&unit.body, 1);
        let r = self.e(&unit.ret);
        self.out.push_str(&format!("    {r}\n{close}"));
    }
}

// ---- model
type V = Option<u8>;
fn ev(e: &E, x: &[V]) -> V {
    match e {
        E::Var(i) => x[*i],
        E::Lit(v, _) => Some(*v),
        E::Byte(v, _, i) => Some(v[*i]),
        E::Add(a, b) => Some(ev(a, x)?.wrapping_add(ev(b, x)?)),
        E::Sub(a, b) => Some(ev(a, x)?.wrapping_sub(ev(b, x)?)),
    }
}
fn cv(c: &C, x: &[V]) -> Option<bool> {
    Some(match c {
        C::Cmp(op, a, b) => {
            let (a, b) = (ev(a, x)?, ev(b, x)?);
            match *op {
                "==" => a == b,
                "!=" => a != b,
                "<" => a < b,
                ">" => a > b,
                "<=" => a <= b,
                _ => a >= b,
            }
        }
        C::Const(a, b) => ev(a, x)? == ev(b, x)?,
        C::Bin(op, a, b) => {
            let (a, b) = (cv(a, x)?, cv(b, x)?);
            match *op {
                "&&" => a && b,
                "||" => a || b,
                _ => a != b,
            }
        }
        C::Not(a) => !cv(a, x)?,
        C::Lit(b) => *b,
    })
}
type State = HashMap<String, Vec<V>>;
struct M<'a> {
    units: &'a [Unit],
    now: &'a State,
    next: State,
    out: Vec<(usize, Option<bool>)>,
}
impl M<'_> {
    fn body(&mut self, b: &[S], x: &mut Vec<V>, path: &str) {
        // registers may be used before they are given their next value
        for s in b {
            if let S::Reg(v, i, _) = s {
                x[*v] = self.now.get(&format!("{path}.{v}")).map_or(Some(*i), |s| s[0]);
            }
        }
        let mut stage = 0;
        for s in b {
            match s {
                S::Let(v, e) => x[*v] = ev(e, x),
                S::Assert(id, c) => self.out.push((*id, cv(c, x))),
                S::Call(v, u, a, b) => {
                    let (a, b) = (ev(a, x), ev(b, x));
                    x[*v] = self.unit(*u, a, b, &format!("{path}/{v}"));
                }
                S::Reg(v, _, e) => {
                    let n = ev(e, x);
                    self.next.insert(format!("{path}.{v}"), vec![n]);
                }
                S::Block(v, s, e) => {
                    self.body(s, x, path);
                    x[*v] = ev(e, x);
                }
                S::Lambda(v, p, s, e, a, b) => {
                    x[p[0]] = ev(a, x);
                    x[p[1]] = ev(b, x);
                    self.body(s, x, path);
                    x[*v] = ev(e, x);
                }
                S::Stage => {
                    let key = format!("{path}#{stage}");
                    stage += 1;
                    let old = self.now.get(&key).cloned().unwrap_or(vec![None; x.len()]);
                    self.next.insert(key, std::mem::replace(x, old));
                }
            }
        }
    }
    fn unit(&mut self, u: usize, a: V, b: V, path: &str) -> V {
        let unit = &self.units[u];
        let mut x = vec![None; unit.nvars];
        x[0] = a;
        x[1] = b;
        let units = self.units;
        self.body(&units[u].body, &mut x, path);
        ev(&unit.ret, &x)
    }
}

// ---- messages
/// what `$display` prints
fn printed(format: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut c = format.chars();
    while let Some(x) = c.next() {
        if x == '%' {
            match c.next() {
                Some('%') => out.push('%'),
                o => return Err(format!("the message has a format directive %{o:?} without argument: {format:?}")),
            }
        } else {
            out.push(x);
        }
    }
    Ok(out)
}
/// text and what is red
fn coloured(s: &str) -> (String, String) {
    let (mut all, mut red) = (String::new(), String::new());
    let mut on = false;
    let mut c = s.chars();
    while let Some(x) = c.next() {
        if x == '\u{1b}' {
            let code: String = c.by_ref().take_while(|x| *x != 'm').collect();
            on = match code.as_str() {
                "[0" => false,
                "[38;5;9" => true,
                _ => on,
            };
        } else {
            all.push(x);
            if on {
                red.push(x);
            }
        }
    }
    (all, red)
}
fn dense(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && !matches!(c, '│' | '╭' | '╰' | '─')).collect()
}

struct Spot {
    line: usize,
    col: usize,
    /// (line, all of it, the part that belongs to the expression)
    rows: BTreeMap<usize, (String, String)>,
}
fn spot(src: &str, from: usize, to: usize) -> Spot {
    let line = src[..from].matches('\n').count() + 1;
    let start = src[..from].rfind('\n').map_or(0, |i| i + 1);
    let mut rows = BTreeMap::new();
    let mut pos = 0;
    for (i, l) in src.split('\n').enumerate() {
        let (s, e) = (pos, pos + l.len());
        pos = e + 1;
        if e >= from && s < to {
            rows.insert(i + 1, (dense(l), dense(&src[s.max(from)..e.min(to)])));
        }
    }
    Spot { line, col: src[start..from].chars().count() + 1, rows }
}

/// the assertion a message is about
fn identify(shown: &[String], file: &str, spots: &HashMap<usize, Spot>) -> Result<usize, String> {
    let mut lines = vec![];
    for s in shown {
        for l in printed(s)?.split('\n') {
            lines.push(coloured(l));
        }
    }
    let text = || lines.iter().map(|l| l.0.clone()).collect::<Vec<_>>().join("\n");
    if !lines.first().is_some_and(|l| l.0.contains("Assertion failed")) {
        return Err(format!("the message does not start with what happened:\n{}", text()));
    }
    let Some(head) = lines.iter().find_map(|l| l.0.trim_start().strip_prefix("┌─ ").map(|x| x.to_string())) else {
        return Err(format!("the message names no place:\n{}", text()));
    };
    let Some((id, s)) = spots.iter().find(|(_, s)| head == format!("{file}:{}:{}", s.line, s.col)) else {
        return Err(format!("the message names {head}, where no asserted expression starts:\n{}", text()));
    };
    let mut seen = 0;
    for (all, red) in &lines {
        let Some((n, rest)) = all.split_once('│') else { continue };
        let Ok(n) = n.trim().parse::<usize>() else { continue };
        match s.rows.get(&n) {
            Some((l, part)) => {
                seen += 1;
                if dense(rest) != *l {
                    return Err(format!("line {n} of the source is shown differently:\n{}", text()));
                }
                // the number of the line is not part of it
                if dense(red) != *part {
                    return Err(format!("in line {n} {red:?} is marked, the expression is {part:?}:\n{}", text()));
                }
            }
            None if !dense(red).is_empty() => return Err(format!("something in line {n} is marked:\n{}", text())),
            None => {}
        }
    }
    if seen < s.rows.len().min(2) {
        return Err(format!("the message does not show the expression:\n{}", text()));
    }
    Ok(*id)
}

/// the text of a program with assertions
pub fn unit(g: &mut Gen) -> Made {
    let n = g.usize(0, 2);
    let mut b = B { g, next: 0, units: vec![], bytes: false };
    for _ in 0..n {
        b.unit(false);
    }
    b.unit(true);
    let units = b.units;
    let top = units.len() - 1;
    let mut t = T { g, out: String::new(), at: HashMap::new(), units: &units, wild: false };
    for u in 0..units.len() {
        let name = if u == top { "top".to_string() } else { format!("u{u}") };
        t.unit(u, &name);
    }
    Made { src: t.out, std: false, judge: Box::new(|_| Ok(())), nontrivial: None, sample: json!({}), feats: vec![] }
}

fn case(g: &mut Gen) -> Result<CaseOk, (Failure, serde_json::Value)> {
    let n = g.usize(0, 4);
    let bytes = g.bool();
    let mut b = B { g, next: 0, units: vec![], bytes };
    for _ in 0..n {
        b.unit(false);
    }
    b.unit(true);
    let units = b.units;
    let top = units.len() - 1;
    let wild = g.chance(3, 4);
    let mut t = T { g, out: String::new(), at: HashMap::new(), units: &units, wild };
    for u in 0..units.len() {
        if t.g.chance(1, 6) {
            t.out.push_str("// é → \"\n");
        }
        let name = if u == top { "top".to_string() } else { format!("u{u}") };
        t.unit(u, &name);
    }
    let (src, at) = (t.out, t.at);
    let spots: HashMap<usize, Spot> = at.iter().map(|(k, v)| (*k, spot(&src, v.0, v.1))).collect();
    let file = *g.pick(&["t.spade", "src/main.spade", "/tmp/a b/x%d.spade", "x\"y.spade"]);
    let info = json!({"source": src, "file": file});
    let bad = |class: &str, msg: String| Err((Failure { class: class.into(), msg }, info.clone()));
    beat(&src);
    let o = spadec::run(&[File { ns: vec![], base: vec![], name: file.into(), src: src.clone() }], &Opts::default());
    if let Some(e) = &o.panic {
        return bad(&format!("panic {}", norm_panic(e)), format!("the compiler panicked: {e}"));
    }
    if !o.ok {
        if let Some(b) = o.errors().iter().find(|d| d.level == Level::Bug) {
            return bad("internal error", format!("internal error: {}", b.msg));
        }
        return bad(&format!("reject {}", norm_msg(&o.errors().first().map(|d| d.msg.clone()).unwrap_or_default())), format!("rejected: {}", o.first_error()));
    }
    let design = match crate::vparse::parse(o.verilog.as_ref().unwrap()) {
        Ok(d) => d,
        Err(e) => return bad("malformed verilog", e.to_string()),
    };
    let mut sim = match Sim::new(&design, "top") {
        Ok(s) => s,
        Err(e) => return bad("elaboration", e),
    };
    let mut ids = vec![];
    for (_, _, shown) in &sim.asserts {
        match identify(shown, file, &spots) {
            Ok(i) => ids.push(i),
            Err(e) => return bad("message", e),
        }
    }
    let mut state = State::new();
    let mut hist = vec![];
    let (mut yes, mut no) = (0, 0);
    sim.set("clk_i", Bv::zero(1)).ok();
    let pool = [g.below(256) as u8, g.below(256) as u8, 0, 255, b'"', b'%'];
    for cycle in 0..8 {
        let (x, y) = (*g.pick(&pool), *g.pick(&pool));
        hist.push(format!("a = {x}, b = {y}"));
        let mut m = M { units: &units, now: &state, next: State::new(), out: vec![] };
        let ret = m.unit(top, Some(x), Some(y), "");
        let (next, mut want) = (m.next, m.out);
        let r = (|| -> Result<(Vec<(usize, Option<bool>)>, Bv), String> {
            sim.set("a_i", Bv::from_u64(8, x as u64))?;
            sim.set("b_i", Bv::from_u64(8, y as u64))?;
            sim.settle()?;
            Ok((ids.iter().copied().zip(sim.assert_values()).collect(), sim.get("output__")?))
        })();
        let (mut got, out) = match r {
            Ok(x) => x,
            Err(e) => return bad("interface", e),
        };
        if let Some(r) = ret {
            if out.to_u64() != Some(r as u64) {
                return bad("wrong value", format!("in cycle {cycle} output is {}, expected {r}; inputs {hist:?}", out.to_bits()));
            }
        }
        want.sort();
        got.sort();
        let count = |v: &[(usize, Option<bool>)], id: usize, x: Option<Option<bool>>| v.iter().filter(|y| y.0 == id && x.is_none_or(|x| y.1 == x)).count();
        for id in at.keys() {
            let (w, h) = (count(&want, *id, None), count(&got, *id, None));
            let text = || src[at[id].0..at[id].1].to_string();
            if w != h {
                return bad("assert count", format!("{h} assertions of `{}` in the output, {w} instances of it in the program", text()));
            }
            let open = count(&want, *id, Some(None));
            for v in [true, false] {
                let (w, h) = (count(&want, *id, Some(Some(v))), count(&got, *id, Some(Some(v))));
                if v {
                    yes += w
                } else {
                    no += w
                }
                if h < w || h > w + open {
                    return bad("assertion", format!("in cycle {cycle} `{}` must be {v} in {w} instances, is in {h}; inputs {hist:?}", text()));
                }
            }
        }
        state = next;
        if let Err(e) = sim.tick("clk_i") {
            return bad("does not settle", e);
        }
    }
    let mut feats = vec![];
    for (k, f) in [("fn |", "in a lambda"), ("pipeline", "in a pipeline"), ("impl", "in a method"), ("<T>", "in a generic function"), ("#[inline]", "in an inlined function"), ("= {\n", "in a block")] {
        if src.contains(k) {
            feats.push(f);
        }
    }
    if spots.values().any(|s| s.rows.len() > 1) {
        feats.push("over several lines");
    }
    if ids.len() > at.len() {
        feats.push("several instances");
    }
    Ok(CaseOk { nontrivial: if yes > 0 && no > 0 && at.len() > 1 { Some(tape::hash_str(&src)) } else { None }, sample: info, feats })
}

pub fn c16(ctx: &Ctx) {
    ctx.rule("a program counts when it has at least two assertions and over the history some hold and some fail");
    ctx.assume("the harness' own Verilog parser/simulator implements the IEEE 1800 semantics of the emitted subset");
    run_cases(ctx, "assertions", &case, ctx.amount(4000, 160000));
}
