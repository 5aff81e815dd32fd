//! Strict parser for the SystemVerilog subset that synthesised designs are emitted in.
use crate::bv::Bv;
use num::{BigUint, Num, ToPrimitive};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    /// escaped identifier
    Esc(String),
    Num { size: Option<usize>, val: Bv, signed: bool, unsized_based: bool },
    Str(String),
    Op(&'static str),
    Sys(String),
    Eof,
}

#[derive(Clone, Debug)]
pub enum Expr {
    Lit { v: Bv, signed: bool },
    /// 'bx style fill literal: extends to context
    Id(String),
    Index(Box<Expr>, Box<Expr>),
    Range(Box<Expr>, Box<Expr>, Box<Expr>),
    PlusRange(Box<Expr>, Box<Expr>, Box<Expr>),
    MinusRange(Box<Expr>, Box<Expr>, Box<Expr>),
    Concat(Vec<Expr>),
    Repl(Box<Expr>, Vec<Expr>),
    Un(&'static str, Box<Expr>),
    Bin(&'static str, Box<Expr>, Box<Expr>),
    Cond(Box<Expr>, Box<Expr>, Box<Expr>),
    Signed(Box<Expr>, bool),
    Str(String),
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Block(Vec<Stmt>),
    If(Expr, Box<Stmt>, Option<Box<Stmt>>),
    Blocking(Expr, Expr),
    Nonblocking(Expr, Expr),
    /// priority casez
    Casez(Expr, Vec<(Expr, Stmt)>),
    Delay0,
    /// condition and what is displayed when it does not hold
    Assert(Expr, Vec<String>),
    Nop,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dir {
    In,
    Out,
    InOut,
}

#[derive(Clone, Debug)]
pub struct Port {
    pub dir: Dir,
    pub name: String,
    pub width: usize,
    pub scalar: bool,
}

#[derive(Clone, Debug)]
pub enum Item {
    Net { name: String, width: usize, scalar: bool, mem: Option<usize>, reg: bool },
    Param { name: String, width: usize, value: Expr },
    Assign(Expr, Expr),
    Initial(Stmt),
    AlwaysPos(Vec<Expr>, Stmt),
    AlwaysOn(Expr, Stmt),
    AlwaysComb(Stmt),
    Inst { module: String, name: String, params: Vec<(String, Expr)>, conns: Vec<(String, Expr)> },
}

#[derive(Clone, Debug)]
pub struct Module {
    pub name: String,
    pub ports: Vec<Port>,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug, Default)]
pub struct Design {
    pub modules: Vec<Module>,
    pub by_name: HashMap<String, usize>,
    pub default_nettype_none: bool,
}

impl Design {
    pub fn get(&self, n: &str) -> Option<&Module> {
        self.by_name.get(n).map(|i| &self.modules[*i])
    }
}

fn preprocess(src: &str) -> Result<(String, bool), String> {
    let mut out = String::with_capacity(src.len());
    let mut defined: HashSet<String> = HashSet::new();
    // (active_before, this_branch_active)
    let mut stack: Vec<(bool, bool)> = vec![];
    let mut active = true;
    let mut nettype = false;
    let mut cont = false;
    for (ln, line) in src.lines().enumerate() {
        let t = line.trim_start();
        if cont {
            cont = line.trim_end().ends_with('\\');
            out.push('\n');
            continue;
        }
        if let Some(d) = t.strip_prefix('`') {
            let word: String = d.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            let rest = d[word.len()..].trim();
            match word.as_str() {
                "ifdef" | "ifndef" => {
                    let cond = defined.contains(rest) == (word == "ifdef");
                    stack.push((active, cond));
                    active = active && cond;
                }
                "else" => {
                    let (b, c) = stack.last_mut().ok_or(format!("line {}: `else without `ifdef", ln + 1))?;
                    *c = !*c;
                    active = *b && *c;
                }
                "endif" => {
                    let (b, _) = stack.pop().ok_or(format!("line {}: `endif without `ifdef", ln + 1))?;
                    active = b;
                }
                "define" => {
                    if active {
                        let name: String =
                            rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                        defined.insert(name);
                    }
                    cont = line.trim_end().ends_with('\\');
                }
                "default_nettype" => {
                    if rest == "none" {
                        nettype = true;
                    }
                }
                "COCOTB_CODE" => {
                    if active && !defined.contains("COCOTB_CODE") {
                        return Err(format!("line {}: use of undefined macro COCOTB_CODE", ln + 1));
                    }
                    if !(rest.starts_with('(') && rest.ends_with(')')) {
                        return Err(format!("line {}: malformed COCOTB_CODE macro use: {line}", ln + 1));
                    }
                }
                "timescale" => {}
                _ => return Err(format!("line {}: unknown directive {line}", ln + 1)),
            }
            out.push('\n');
        } else if active {
            out.push_str(line);
            out.push('\n');
        } else {
            out.push('\n');
        }
    }
    if !stack.is_empty() {
        return Err("unterminated `ifdef".into());
    }
    Ok((out, nettype))
}

struct Lexer<'a> {
    s: &'a [u8],
    p: usize,
    line: usize,
}

const OPS: &[&str] = &[
    "<<<", ">>>", "===", "!==", "(*", "*)", "<=", ">=", "==", "!=", "&&", "||", "<<", ">>", "+:", "-:", "~^", "^~",
    "(", ")", "[", "]", "{", "}", ",", ";", ":", "?", "=", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "<",
    ">", "@", "#", ".",
];

impl<'a> Lexer<'a> {
    fn ws(&mut self) -> Result<(), String> {
        loop {
            match self.s.get(self.p) {
                Some(b'\n') => {
                    self.line += 1;
                    self.p += 1;
                }
                Some(c) if c.is_ascii_whitespace() => self.p += 1,
                Some(b'/') if self.s.get(self.p + 1) == Some(&b'/') => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn next(&mut self) -> Result<Tok, String> {
        self.ws()?;
        let Some(&c) = self.s.get(self.p) else { return Ok(Tok::Eof) };
        if c == b'\\' {
            let st = self.p + 1;
            while self.p < self.s.len() && !self.s[self.p].is_ascii_whitespace() {
                self.p += 1;
            }
            if self.p == st {
                return Err(format!("line {}: empty escaped identifier", self.line));
            }
            if self.p >= self.s.len() {
                return Err("escaped identifier not followed by whitespace".into());
            }
            return Ok(Tok::Esc(String::from_utf8_lossy(&self.s[st..self.p]).into_owned()));
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            let st = self.p;
            while self.p < self.s.len()
                && (self.s[self.p].is_ascii_alphanumeric() || self.s[self.p] == b'_' || self.s[self.p] == b'$')
            {
                self.p += 1;
            }
            return Ok(Tok::Id(String::from_utf8_lossy(&self.s[st..self.p]).into_owned()));
        }
        if c == b'$' {
            let st = self.p;
            self.p += 1;
            while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || self.s[self.p] == b'_') {
                self.p += 1;
            }
            return Ok(Tok::Sys(String::from_utf8_lossy(&self.s[st..self.p]).into_owned()));
        }
        if c == b'"' {
            self.p += 1;
            let mut out = vec![];
            loop {
                match self.s.get(self.p) {
                    None | Some(b'\n') => return Err(format!("line {}: unterminated string", self.line)),
                    Some(b'"') => {
                        self.p += 1;
                        return Ok(Tok::Str(String::from_utf8_lossy(&out).into_owned()));
                    }
                    Some(b'\\') => {
                        self.p += 1;
                        match self.s.get(self.p) {
                            Some(b'n') => out.push(b'\n'),
                            Some(b't') => out.push(b'\t'),
                            Some(b'\\') => out.push(b'\\'),
                            Some(b'"') => out.push(b'"'),
                            Some(c) if c.is_ascii_digit() => {
                                // octal
                                let mut v = 0u32;
                                for _ in 0..3 {
                                    match self.s.get(self.p) {
                                        Some(c) if (b'0'..=b'7').contains(c) => {
                                            v = v * 8 + (c - b'0') as u32;
                                            self.p += 1;
                                        }
                                        _ => break,
                                    }
                                }
                                out.push(v as u8);
                                self.p -= 1;
                            }
                            other => {
                                return Err(format!("line {}: bad string escape {:?}", self.line, other.map(|c| *c as char)))
                            }
                        }
                        self.p += 1;
                    }
                    Some(c) => {
                        out.push(*c);
                        self.p += 1;
                    }
                }
            }
        }
        if c.is_ascii_digit() || c == b'\'' {
            return self.number();
        }
        for op in OPS {
            if self.s[self.p..].starts_with(op.as_bytes()) {
                self.p += op.len();
                return Ok(Tok::Op(op));
            }
        }
        Err(format!("line {}: unexpected character {:?}", self.line, c as char))
    }
    fn number(&mut self) -> Result<Tok, String> {
        let st = self.p;
        while self.p < self.s.len() && (self.s[self.p].is_ascii_digit() || self.s[self.p] == b'_') {
            self.p += 1;
        }
        let dec = String::from_utf8_lossy(&self.s[st..self.p]).replace('_', "");
        if self.s.get(self.p) == Some(&b'\'') {
            let size = if dec.is_empty() {
                None
            } else {
                Some(dec.parse::<usize>().map_err(|e| format!("line {}: bad size {e}", self.line))?)
            };
            if size == Some(0) {
                return Err(format!("line {}: zero-width literal", self.line));
            }
            self.p += 1;
            let base = *self.s.get(self.p).ok_or("eof in literal")?;
            self.p += 1;
            let st = self.p;
            while self.p < self.s.len()
                && (self.s[self.p].is_ascii_alphanumeric() || self.s[self.p] == b'_' || self.s[self.p] == b'?')
            {
                self.p += 1;
            }
            let digits = String::from_utf8_lossy(&self.s[st..self.p]).replace('_', "");
            if digits.is_empty() {
                return Err(format!("line {}: literal without digits", self.line));
            }
            let raw = match base {
                b'b' | b'B' => {
                    if !digits.chars().all(|c| "01xXzZ?".contains(c)) {
                        return Err(format!("line {}: bad binary literal {digits}", self.line));
                    }
                    Bv::from_bits(&digits)
                }
                b'd' | b'D' => match digits.as_str() {
                    "x" | "X" => Bv::x(1),
                    "z" | "Z" | "?" => Bv::z(1),
                    _ => {
                        let v = BigUint::from_str_radix(&digits, 10)
                            .map_err(|e| format!("line {}: bad decimal {digits}: {e}", self.line))?;
                        let w = (v.bits() as usize).max(1) + 1;
                        Bv::from_uint(w, &v)
                    }
                },
                b'h' | b'H' => {
                    let v = BigUint::from_str_radix(&digits, 16)
                        .map_err(|e| format!("line {}: bad hex {digits}: {e}", self.line))?;
                    Bv::from_uint((v.bits() as usize).max(1) + 1, &v)
                }
                _ => return Err(format!("line {}: bad literal base", self.line)),
            };
            let w = size.unwrap_or_else(|| raw.w.max(32));
            // extension with x or z of the top digit
            let v = if raw.w < w && raw.b.bit(raw.w as u64 - 1) { raw.ext(w, true) } else { raw.ext(w, false) };
            Ok(Tok::Num { size, val: v, signed: false, unsized_based: size.is_none() })
        } else {
            let v = BigUint::from_str_radix(&dec, 10).map_err(|e| format!("{e}"))?;
            if v.bits() > 32 {
                return Err(format!("line {}: unsized decimal literal {dec} does not fit in 32 bits", self.line));
            }
            Ok(Tok::Num { size: None, val: Bv::from_uint(32, &v), signed: true, unsized_based: false })
        }
    }
}

struct P {
    toks: Vec<(Tok, usize)>,
    p: usize,
    /// what `$display` is given
    shown: Vec<String>,
}

const KEYWORDS: &[&str] = &[
    "module", "endmodule", "input", "output", "inout", "logic", "reg", "wire", "assign", "always", "always_comb",
    "always_ff", "initial", "begin", "end", "if", "else", "case", "casez", "endcase", "posedge", "negedge",
    "localparam", "parameter", "priority", "unique", "assert", "or", "and", "not", "for", "while", "function", "task",
    "generate", "integer", "int", "bit", "byte", "string", "default", "signed", "unsigned", "typedef", "struct",
    "enum", "union", "interface", "package", "return", "do", "this", "new", "static", "var", "xor", "nand", "nor",
    "buf", "time", "real", "force", "release", "wait", "repeat", "forever", "fork", "join", "tri", "supply0",
    "supply1",
];

impl P {
    fn peek(&self) -> &Tok {
        &self.toks[self.p].0
    }
    fn peek2(&self) -> &Tok {
        &self.toks[(self.p + 1).min(self.toks.len() - 1)].0
    }
    fn line(&self) -> usize {
        self.toks[self.p].1
    }
    fn bump(&mut self) -> Tok {
        let t = self.toks[self.p].0.clone();
        if self.p + 1 < self.toks.len() {
            self.p += 1;
        }
        t
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("line {}: {m}, at {:?}", self.line(), self.peek()))
    }
    fn is(&self, op: &str) -> bool {
        matches!(self.peek(), Tok::Op(o) if *o == op)
    }
    fn kw(&self, k: &str) -> bool {
        matches!(self.peek(), Tok::Id(o) if o == k)
    }
    fn eat(&mut self, op: &str) -> bool {
        if self.is(op) {
            self.bump();
            true
        } else {
            false
        }
    }
    fn eat_kw(&mut self, op: &str) -> bool {
        if self.kw(op) {
            self.bump();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, op: &str) -> Result<(), String> {
        if self.eat(op) { Ok(()) } else { self.err(&format!("expected `{op}`")) }
    }
    fn expect_kw(&mut self, op: &str) -> Result<(), String> {
        if self.eat_kw(op) { Ok(()) } else { self.err(&format!("expected `{op}`")) }
    }
    fn ident(&mut self) -> Result<String, String> {
        match self.peek().clone() {
            Tok::Id(s) => {
                if KEYWORDS.contains(&s.as_str()) {
                    return self.err(&format!("reserved word `{s}` used as an identifier"));
                }
                self.bump();
                Ok(s)
            }
            Tok::Esc(s) => {
                self.bump();
                Ok(s)
            }
            _ => self.err("expected identifier"),
        }
    }
    fn attrs(&mut self) -> Result<(), String> {
        while self.is("(*") {
            self.bump();
            loop {
                self.ident()?;
                if self.eat("=") {
                    match self.bump() {
                        Tok::Str(_) | Tok::Num { .. } => {}
                        _ => return self.err("bad attribute value"),
                    }
                }
                if self.eat(",") {
                    continue;
                }
                self.expect("*)")?;
                break;
            }
        }
        Ok(())
    }
    fn range(&mut self) -> Result<Option<usize>, String> {
        if !self.eat("[") {
            return Ok(None);
        }
        let hi = const_eval(&self.expr()?).ok_or("non-constant range")?;
        self.expect(":")?;
        let lo = const_eval(&self.expr()?).ok_or("non-constant range")?;
        self.expect("]")?;
        if lo != 0 || hi < 0 {
            return self.err(&format!("bad range [{hi}:{lo}]"));
        }
        Ok(Some(hi as usize + 1))
    }
    fn module(&mut self) -> Result<Module, String> {
        self.attrs()?;
        self.expect_kw("module")?;
        let name = self.ident()?;
        self.expect("(")?;
        let mut ports = vec![];
        if !self.eat(")") {
            loop {
                let dir = if self.eat_kw("input") {
                    Dir::In
                } else if self.eat_kw("output") {
                    Dir::Out
                } else if self.eat_kw("inout") {
                    Dir::InOut
                } else {
                    return self.err("expected port direction");
                };
                let r = self.range()?;
                let name = self.ident()?;
                ports.push(Port { dir, name, width: r.unwrap_or(1), scalar: r.is_none() });
                if self.eat(",") {
                    continue;
                }
                self.expect(")")?;
                break;
            }
        }
        self.expect(";")?;
        let mut items = vec![];
        while !self.kw("endmodule") {
            self.item(&mut items)?;
        }
        self.bump();
        Ok(Module { name, ports, items })
    }
    fn item(&mut self, items: &mut Vec<Item>) -> Result<(), String> {
        self.attrs()?;
        // escaped identifiers can spell keywords; emitted code always escapes user names with a leading
        // backslash, which the lexer strips, so treat keyword-lookalikes conservatively by position.
        let t = self.peek().clone();
        match t {
            Tok::Id(k) => match k.as_str() {
                "logic" | "reg" | "wire" if !matches!(self.peek2(), Tok::Op("#")) => {
                    self.bump();
                    let r = self.range()?;
                    let name = self.ident()?;
                    let mem = self.range()?;
                    self.expect(";")?;
                    items.push(Item::Net { name, width: r.unwrap_or(1), scalar: r.is_none(), mem, reg: k == "reg" });
                    Ok(())
                }
                "localparam" => {
                    self.bump();
                    let r = self.range()?;
                    let name = self.ident()?;
                    self.expect("=")?;
                    let value = self.expr()?;
                    self.expect(";")?;
                    items.push(Item::Param { name, width: r.unwrap_or(32), value });
                    Ok(())
                }
                "assign" => {
                    self.bump();
                    let l = self.lvalue()?;
                    self.expect("=")?;
                    let r = self.expr()?;
                    self.expect(";")?;
                    items.push(Item::Assign(l, r));
                    Ok(())
                }
                "initial" => {
                    self.bump();
                    let s = self.stmt()?;
                    items.push(Item::Initial(s));
                    Ok(())
                }
                "always_comb" => {
                    self.bump();
                    let s = self.stmt()?;
                    items.push(Item::AlwaysComb(s));
                    Ok(())
                }
                "always" => {
                    self.bump();
                    self.expect("@")?;
                    self.expect("(")?;
                    if self.kw("posedge") {
                        let mut edges = vec![];
                        loop {
                            self.expect_kw("posedge")?;
                            edges.push(self.expr()?);
                            if self.eat_kw("or") || self.eat(",") {
                                continue;
                            }
                            break;
                        }
                        self.expect(")")?;
                        let s = self.stmt()?;
                        items.push(Item::AlwaysPos(edges, s));
                    } else {
                        let e = self.expr()?;
                        self.expect(")")?;
                        let s = self.stmt()?;
                        items.push(Item::AlwaysOn(e, s));
                    }
                    Ok(())
                }
                _ => self.instance(items),
            },
            Tok::Esc(_) => self.instance(items),
            _ => self.err("expected module item"),
        }
    }
    fn instance(&mut self, items: &mut Vec<Item>) -> Result<(), String> {
        let module = self.ident()?;
        let mut params = vec![];
        if self.eat("#") {
            self.expect("(")?;
            if !self.eat(")") {
                loop {
                    self.expect(".")?;
                    let n = self.ident()?;
                    self.expect("(")?;
                    let e = self.expr()?;
                    self.expect(")")?;
                    params.push((n, e));
                    if self.eat(",") {
                        continue;
                    }
                    self.expect(")")?;
                    break;
                }
            }
        }
        let name = self.ident()?;
        self.expect("(")?;
        let mut conns = vec![];
        if !self.eat(")") {
            loop {
                self.expect(".")?;
                let n = self.ident()?;
                self.expect("(")?;
                let e = self.expr()?;
                self.expect(")")?;
                conns.push((n, e));
                if self.eat(",") {
                    continue;
                }
                self.expect(")")?;
                break;
            }
        }
        self.expect(";")?;
        items.push(Item::Inst { module, name, params, conns });
        Ok(())
    }
    fn lvalue(&mut self) -> Result<Expr, String> {
        let e = self.primary()?;
        fn ok(e: &Expr) -> bool {
            match e {
                Expr::Id(_) => true,
                Expr::Index(b, _) | Expr::Range(b, _, _) | Expr::PlusRange(b, _, _) | Expr::MinusRange(b, _, _) => ok(b),
                Expr::Concat(v) => v.iter().all(ok),
                _ => false,
            }
        }
        if ok(&e) { Ok(e) } else { self.err("illegal assignment target") }
    }
    fn stmt(&mut self) -> Result<Stmt, String> {
        match self.peek().clone() {
            Tok::Op(";") => {
                self.bump();
                Ok(Stmt::Nop)
            }
            Tok::Op("#") => {
                self.bump();
                self.bump();
                Ok(Stmt::Delay0)
            }
            Tok::Sys(task) => {
                self.bump();
                self.expect("(")?;
                if let (true, Tok::Str(t)) = (task == "$display", self.peek()) {
                    let t = t.clone();
                    self.shown.push(t);
                }
                if !self.eat(")") {
                    loop {
                        self.expr()?;
                        if self.eat(",") {
                            continue;
                        }
                        self.expect(")")?;
                        break;
                    }
                }
                self.expect(";")?;
                Ok(Stmt::Nop)
            }
            Tok::Id(k) => match k.as_str() {
                "begin" => {
                    self.bump();
                    let mut v = vec![];
                    while !self.kw("end") {
                        if matches!(self.peek(), Tok::Eof) {
                            return self.err("unterminated begin");
                        }
                        v.push(self.stmt()?);
                    }
                    self.bump();
                    Ok(Stmt::Block(v))
                }
                "if" => {
                    self.bump();
                    self.expect("(")?;
                    let c = self.expr()?;
                    self.expect(")")?;
                    let a = self.stmt()?;
                    let b = if self.eat_kw("else") { Some(Box::new(self.stmt()?)) } else { None };
                    Ok(Stmt::If(c, Box::new(a), b))
                }
                "priority" | "casez" => {
                    self.eat_kw("priority");
                    self.expect_kw("casez")?;
                    self.expect("(")?;
                    let c = self.expr()?;
                    self.expect(")")?;
                    let mut arms = vec![];
                    while !self.kw("endcase") {
                        let pat = self.expr()?;
                        self.expect(":")?;
                        let s = self.stmt()?;
                        arms.push((pat, s));
                    }
                    self.bump();
                    Ok(Stmt::Casez(c, arms))
                }
                "assert" => {
                    self.bump();
                    self.expect("(")?;
                    let c = self.expr()?;
                    self.expect(")")?;
                    let mut shown = vec![];
                    if self.eat_kw("else") {
                        std::mem::swap(&mut shown, &mut self.shown);
                        self.stmt()?;
                        std::mem::swap(&mut shown, &mut self.shown);
                    } else {
                        self.expect(";")?;
                    }
                    Ok(Stmt::Assert(c, shown))
                }
                _ => {
                    let l = self.lvalue()?;
                    if self.eat("<=") {
                        let r = self.expr()?;
                        self.expect(";")?;
                        Ok(Stmt::Nonblocking(l, r))
                    } else {
                        self.expect("=")?;
                        let r = self.expr()?;
                        self.expect(";")?;
                        Ok(Stmt::Blocking(l, r))
                    }
                }
            },
            _ => {
                let l = self.lvalue()?;
                if self.eat("<=") {
                    let r = self.expr()?;
                    self.expect(";")?;
                    Ok(Stmt::Nonblocking(l, r))
                } else {
                    self.expect("=")?;
                    let r = self.expr()?;
                    self.expect(";")?;
                    Ok(Stmt::Blocking(l, r))
                }
            }
        }
    }
    fn expr(&mut self) -> Result<Expr, String> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.expect(":")?;
            let b = self.expr()?;
            return Ok(Expr::Cond(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn bin(&mut self, lvl: usize) -> Result<Expr, String> {
        const LV: &[&[&str]] = &[
            &["||"],
            &["&&"],
            &["|"],
            &["^", "~^", "^~"],
            &["&"],
            &["==", "!="],
            &["<", "<=", ">", ">="],
            &["<<", ">>", "<<<", ">>>"],
            &["+", "-"],
            &["*", "/", "%"],
        ];
        if lvl == LV.len() {
            return self.unary();
        }
        let mut l = self.bin(lvl + 1)?;
        loop {
            let op = match self.peek() {
                Tok::Op(o) => match LV[lvl].iter().find(|x| **x == *o) {
                    Some(o) => *o,
                    None => return Ok(l),
                },
                _ => return Ok(l),
            };
            self.bump();
            let r = self.bin(lvl + 1)?;
            l = Expr::Bin(op, Box::new(l), Box::new(r));
        }
    }
    fn unary(&mut self) -> Result<Expr, String> {
        for op in ["-", "+", "!", "~", "&", "|", "^"] {
            if self.is(op) {
                self.bump();
                let e = self.unary()?;
                return Ok(Expr::Un(op, Box::new(e)));
            }
        }
        self.primary()
    }
    fn primary(&mut self) -> Result<Expr, String> {
        let t = self.peek().clone();
        let mut e = match t {
            Tok::Num { val, signed, .. } => {
                self.bump();
                return Ok(Expr::Lit { v: val, signed });
            }
            Tok::Str(s) => {
                self.bump();
                return Ok(Expr::Str(s));
            }
            Tok::Id(_) | Tok::Esc(_) => Expr::Id(self.ident()?),
            Tok::Op("(") => {
                self.bump();
                let e = self.expr()?;
                self.expect(")")?;
                return Ok(e);
            }
            Tok::Sys(s) if s == "$signed" || s == "$unsigned" => {
                self.bump();
                self.expect("(")?;
                let e = self.expr()?;
                self.expect(")")?;
                return Ok(Expr::Signed(Box::new(e), s == "$signed"));
            }
            Tok::Op("{") => {
                self.bump();
                if self.is("}") {
                    return self.err("empty concatenation");
                }
                let first = self.expr()?;
                if self.is("{") {
                    // replication
                    self.bump();
                    let mut v = vec![self.expr()?];
                    while self.eat(",") {
                        v.push(self.expr()?);
                    }
                    self.expect("}")?;
                    self.expect("}")?;
                    return Ok(Expr::Repl(Box::new(first), v));
                }
                let mut v = vec![first];
                while self.eat(",") {
                    v.push(self.expr()?);
                }
                self.expect("}")?;
                // selecting out of a concatenation is not legal in Verilog-2005; SystemVerilog allows it
                return Ok(Expr::Concat(v));
            }
            _ => return self.err("expected expression"),
        };
        while self.eat("[") {
            let i = self.expr()?;
            if self.eat(":") {
                let j = self.expr()?;
                e = Expr::Range(Box::new(e), Box::new(i), Box::new(j));
            } else if self.eat("+:") {
                let j = self.expr()?;
                e = Expr::PlusRange(Box::new(e), Box::new(i), Box::new(j));
            } else if self.eat("-:") {
                let j = self.expr()?;
                e = Expr::MinusRange(Box::new(e), Box::new(i), Box::new(j));
            } else {
                e = Expr::Index(Box::new(e), Box::new(i));
            }
            self.expect("]")?;
        }
        Ok(e)
    }
}

pub fn const_eval(e: &Expr) -> Option<i64> {
    Some(match e {
        Expr::Lit { v, .. } => v.to_uint()?.to_i64()?,
        Expr::Un("-", a) => -const_eval(a)?,
        Expr::Bin(op, a, b) => {
            let (a, b) = (const_eval(a)?, const_eval(b)?);
            match *op {
                "+" => a + b,
                "-" => a - b,
                "*" => a * b,
                _ => return None,
            }
        }
        _ => return None,
    })
}

pub fn parse(src: &str) -> Result<Design, String> {
    let (text, nettype) = preprocess(src)?;
    let mut lx = Lexer { s: text.as_bytes(), p: 0, line: 1 };
    let mut toks = vec![];
    loop {
        let t = lx.next()?;
        let line = lx.line;
        let eof = t == Tok::Eof;
        toks.push((t, line));
        if eof {
            break;
        }
    }
    let mut p = P { toks, p: 0, shown: vec![] };
    let mut d = Design { default_nettype_none: nettype, ..Default::default() };
    while !matches!(p.peek(), Tok::Eof) {
        let m = p.module()?;
        if d.by_name.contains_key(&m.name) {
            return Err(format!("module `{}` is defined more than once", m.name));
        }
        d.by_name.insert(m.name.clone(), d.modules.len());
        d.modules.push(m);
    }
    Ok(d)
}
