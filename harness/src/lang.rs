//! The reference model of the Spade subset the generators use: types, values, AST, printer, interpreter.
//! Nothing here is derived from the compiler's code; it is what the language is documented to mean.
use crate::bv::Bv;
use num::{BigInt, BigUint, One, Signed, ToPrimitive, Zero};
use std::collections::HashMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    Bool,
    Int(u32),
    UInt(u32),
    Tup(Vec<Ty>),
    Arr(Box<Ty>, u32),
    /// user type (index into Prog.defs)
    Named(usize),
    /// stdlib Option<T>
    Opt(Box<Ty>),
}

pub fn unit() -> Ty {
    Ty::Tup(vec![])
}

#[derive(Clone, Debug)]
pub enum DefKind {
    Struct(Vec<(String, Ty)>),
    Enum(Vec<(String, Vec<(String, Ty)>)>),
}
#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub kind: DefKind,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    /// unknown
    U,
    B(bool),
    I(BigInt),
    /// tuple / struct / array
    T(Vec<Val>),
    /// enum variant
    E(usize, Vec<Val>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Mod,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    LAnd,
    LOr,
    LXor,
    Shl,
    Shr,
    Ashr,
    And,
    Or,
    Xor,
    WAdd,
    WSub,
    WMul,
    WShl,
    WShr,
}
impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Add => "+",
            Op::Sub => "-",
            Op::Mul => "*",
            Op::Div => "/",
            Op::Mod => "%",
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
            Op::LAnd => "&&",
            Op::LOr => "||",
            Op::LXor => "^^",
            Op::Shl => "<<",
            Op::Shr => ">>",
            Op::Ashr => ">>>",
            Op::And => "&",
            Op::Or => "|",
            Op::Xor => "^",
            Op::WAdd => "+.",
            Op::WSub => "-.",
            Op::WMul => "*.",
            Op::WShl => "<<.",
            Op::WShr => ">>.",
        }
    }
    /// binding power as documented by the language's operator table
    pub fn prec(self) -> u32 {
        match self {
            Op::LOr => 1,
            Op::LAnd => 2,
            Op::LXor => 3,
            Op::Eq | Op::Ne => 4,
            Op::Lt | Op::Le | Op::Gt | Op::Ge => 5,
            Op::Or => 6,
            Op::Xor => 7,
            Op::And => 8,
            Op::Shl | Op::Shr | Op::Ashr | Op::WShl | Op::WShr => 9,
            Op::Add | Op::Sub | Op::WAdd | Op::WSub => 10,
            Op::Mul | Op::Div | Op::Mod | Op::WMul => 11,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum UOp {
    Neg,
    WNeg,
    Not,
    BNot,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Conv {
    Trunc,
    TruncMethod,
    Zext,
    Sext,
    AsInt,
    AsUint,
    AsBits,
    ToInt,
    BitsAsInt,
    BitsAsUint,
    BoolAsUint,
}

#[derive(Clone, Debug)]
pub struct Ex {
    pub ty: Ty,
    pub k: Box<K>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum ArgStyle {
    Pos,
    /// named, in this permutation of parameter order
    Named(Vec<usize>),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(usize),
    Method(usize),
}
#[derive(Clone, Debug)]
pub enum K {
    /// style: 0 = plain decimal, 1 = with suffix, 2 = hex, 3 = bin (suffix added when the position needs it)
    Lit(Val, u8),
    Var(usize),
    Bin(Op, Ex, Ex),
    Un(UOp, Ex),
    If(Ex, Ex, Ex),
    Match(Ex, Vec<(Pat, Option<Ex>, Ex)>),
    IfLet(Pat, Ex, Ex, Ex),
    Tup(Vec<Ex>),
    TupIdx(Ex, usize),
    Arr(Vec<Ex>),
    ArrRep(Ex, u32),
    ArrIdx(Ex, Ex),
    ArrRange(Ex, Option<u32>, Option<u32>),
    Struct(Vec<Ex>, ArgStyle),
    Field(Ex, usize),
    Enum(usize, Vec<Ex>, ArgStyle),
    Call(Callee, Vec<Ex>, ArgStyle),
    Block(Vec<St>, Ex),
    Conv(Conv, Ex),
    NumConcat(Ex, Ex),
    /// unknown value
    Undef,
    /// immediately applied lambda capturing the environment: (pattern, arg)*, body
    Lambda(Vec<(Pat, Ex)>, Ex),
    /// gen if with a constant condition text and its value
    GenIf(String, bool, Ex, Ex),
    /// valid()/ready/stage refs etc. are printed verbatim by pipelines; evaluated through env var
    Raw(String, usize),
}
#[derive(Clone, Debug)]
pub enum Pat {
    Wild,
    Bind(usize),
    At(usize, Box<Pat>),
    Bool(bool),
    Int(BigInt, bool),
    Tup(Vec<Pat>),
    Arr(Vec<Pat>),
    Struct(usize, Vec<Pat>, ArgStyle),
    /// type, variant, subpatterns, style
    Enum(Ty, usize, Vec<Pat>, ArgStyle),
    /// printed as is, for programs that are not to be run
    Raw(String),
}
#[derive(Clone, Debug)]
pub enum St {
    Let(Pat, Ty, bool, Ex),
    /// decl of variables, values given by later Let/Reg with the same var id
    Decl(Vec<usize>),
    Reg(Reg),
    /// instance of an entity: binds pattern
    Inst { id: usize, pat: Pat, ty: Ty, ann: bool, ent: usize, args: Vec<Ex>, style: ArgStyle },
    /// memory: id, element type, size, initial contents, write ports (we, addr, data)
    Mem { id: usize, elem: Ty, size: u32, addr_w: u32, init: Option<Vec<Val>>, writes: Vec<(Ex, Ex, Ex)> },
    /// asynchronous read of memory: var, mem id, addr
    MemRead { var: usize, ty: Ty, mem: usize, addr: Ex },
    Assert { id: usize, cond: Ex },
    Blank,
    /// printed as is, means nothing to the reference model
    Text(String),
    /// pipeline stage separator: printed only (condition, repetition); its meaning is given by Hidden statements
    Stage(Option<Ex>, u32),
    /// means something to the reference model, not printed
    Hidden(Box<St>),
}
#[derive(Clone, Debug)]
pub struct Reg {
    pub id: usize,
    pub pat: Pat,
    pub ty: Ty,
    pub ann: bool,
    pub clk: usize,
    pub reset: Option<(Ex, Ex)>,
    pub initial: Option<Ex>,
    pub value: Ex,
    pub reset_first: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FnKind {
    Fn,
    Entity,
}
#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub kind: FnKind,
    /// clocks of an entity (names), printed before the parameters
    pub clocks: Vec<String>,
    /// parameter var ids
    pub params: Vec<usize>,
    pub param_tys: Vec<Ty>,
    pub ret: Ty,
    pub body: (Vec<St>, Ex),
    pub var_names: Vec<String>,
    pub var_tys: Vec<Ty>,
    pub method_of: Option<usize>,
    pub attrs: String,
    /// pipeline depth
    pub depth: Option<usize>,
}
#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub defs: Vec<Def>,
    pub fns: Vec<Func>,
    pub top: usize,
}

pub fn clog2(n: usize) -> u32 {
    n.next_power_of_two().trailing_zeros()
}

pub fn idx_width(n: u32) -> u32 {
    if n <= 1 { 0 } else { 32 - (n - 1).leading_zeros() }
}

impl Prog {
    pub fn size(&self, t: &Ty) -> u64 {
        match t {
            Ty::Bool => 1,
            Ty::Int(n) | Ty::UInt(n) => *n as u64,
            Ty::Tup(v) => v.iter().map(|t| self.size(t)).sum(),
            Ty::Arr(t, n) => self.size(t) * *n as u64,
            Ty::Named(d) => match &self.defs[*d].kind {
                DefKind::Struct(f) => f.iter().map(|(_, t)| self.size(t)).sum(),
                DefKind::Enum(vs) => {
                    clog2(vs.len()) as u64
                        + vs.iter().map(|(_, f)| f.iter().map(|(_, t)| self.size(t)).sum::<u64>()).max().unwrap_or(0)
                }
            },
            Ty::Opt(t) => 1 + self.size(t),
        }
    }
    pub fn variants(&self, t: &Ty) -> Vec<(String, Vec<(String, Ty)>)> {
        match t {
            Ty::Opt(t) => vec![("None".into(), vec![]), ("Some".into(), vec![("value".into(), (**t).clone())])],
            Ty::Named(d) => match &self.defs[*d].kind {
                DefKind::Enum(v) => v.clone(),
                _ => vec![],
            },
            _ => vec![],
        }
    }
    pub fn fields(&self, d: usize) -> &Vec<(String, Ty)> {
        match &self.defs[d].kind {
            DefKind::Struct(f) => f,
            _ => panic!("not a struct"),
        }
    }
    pub fn is_enum(&self, t: &Ty) -> bool {
        match t {
            Ty::Opt(_) => true,
            Ty::Named(d) => matches!(self.defs[*d].kind, DefKind::Enum(_)),
            _ => false,
        }
    }
    /// does the type contain an enum whose padding is unspecified?
    pub fn has_enum(&self, t: &Ty) -> bool {
        match t {
            Ty::Bool | Ty::Int(_) | Ty::UInt(_) => false,
            Ty::Tup(v) => v.iter().any(|t| self.has_enum(t)),
            Ty::Arr(t, _) => self.has_enum(t),
            Ty::Opt(_) => true,
            Ty::Named(d) => match &self.defs[*d].kind {
                DefKind::Enum(_) => true,
                DefKind::Struct(f) => f.iter().any(|(_, t)| self.has_enum(t)),
            },
        }
    }
    /// number of distinct values, saturating
    pub fn count(&self, t: &Ty, cap: u64) -> u64 {
        let r = match t {
            Ty::Bool => 2,
            Ty::Int(n) | Ty::UInt(n) => {
                if *n >= 40 {
                    cap
                } else {
                    1u64 << n
                }
            }
            Ty::Tup(v) => v.iter().fold(1u64, |a, t| a.saturating_mul(self.count(t, cap))),
            Ty::Arr(t, n) => (0..*n).fold(1u64, |a, _| a.saturating_mul(self.count(t, cap)).min(cap)),
            Ty::Opt(t) => 1 + self.count(t, cap),
            Ty::Named(d) => match &self.defs[*d].kind {
                DefKind::Struct(f) => f.iter().fold(1u64, |a, (_, t)| a.saturating_mul(self.count(t, cap))),
                DefKind::Enum(v) => {
                    v.iter().map(|(_, f)| f.iter().fold(1u64, |a, (_, t)| a.saturating_mul(self.count(t, cap)))).fold(0u64, |a, b| a.saturating_add(b))
                }
            },
        };
        r.min(cap)
    }
    /// every value of the type, up to `cap`
    pub fn enumerate(&self, t: &Ty, cap: usize) -> Vec<Val> {
        fn prod(p: &Prog, tys: &[Ty], cap: usize) -> Vec<Vec<Val>> {
            let mut acc = vec![vec![]];
            for t in tys {
                let vs = p.enumerate(t, cap);
                let mut n = vec![];
                for a in &acc {
                    for v in &vs {
                        if n.len() < cap {
                            let mut a = a.clone();
                            a.push(v.clone());
                            n.push(a);
                        }
                    }
                }
                acc = n;
            }
            acc
        }
        match t {
            Ty::Bool => vec![Val::B(false), Val::B(true)],
            Ty::UInt(n) => (0..(1u64 << n.min(&20)).min(cap as u64)).map(|v| Val::I(v.into())).collect(),
            Ty::Int(n) => {
                if *n == 0 {
                    return vec![Val::I(BigInt::zero())];
                }
                let h = 1i64 << (n - 1).min(20);
                (-h..h).take(cap).map(|v| Val::I(v.into())).collect()
            }
            Ty::Tup(v) => prod(self, v, cap).into_iter().map(Val::T).collect(),
            Ty::Arr(t, n) => prod(self, &vec![(**t).clone(); *n as usize], cap).into_iter().map(Val::T).collect(),
            Ty::Named(d) if matches!(self.defs[*d].kind, DefKind::Struct(_)) => {
                let tys: Vec<Ty> = self.fields(*d).iter().map(|f| f.1.clone()).collect();
                prod(self, &tys, cap).into_iter().map(Val::T).collect()
            }
            _ => {
                let mut out = vec![];
                for (i, (_, f)) in self.variants(t).iter().enumerate() {
                    let tys: Vec<Ty> = f.iter().map(|f| f.1.clone()).collect();
                    for v in prod(self, &tys, cap) {
                        out.push(Val::E(i, v));
                    }
                }
                out.truncate(cap);
                out
            }
        }
    }
    /// documented bit layout; unknown / padding bits are X
    pub fn encode(&self, t: &Ty, v: &Val) -> Bv {
        let w = self.size(t) as usize;
        if *v == Val::U {
            return Bv::x(w);
        }
        match (t, v) {
            (Ty::Bool, Val::B(b)) => Bv::from_u64(1, *b as u64),
            (Ty::Int(n) | Ty::UInt(n), Val::I(i)) => Bv::from_int(*n as usize, i),
            (Ty::Tup(ts), Val::T(vs)) => {
                let mut r = Bv::zero(0);
                for (t, v) in ts.iter().zip(vs) {
                    r = r.concat(&self.encode(t, v));
                }
                r
            }
            (Ty::Arr(t, _), Val::T(vs)) => {
                let mut r = Bv::zero(0);
                for v in vs.iter().rev() {
                    r = r.concat(&self.encode(t, v));
                }
                r
            }
            (Ty::Named(d), Val::T(vs)) => {
                let f = self.fields(*d);
                let mut r = Bv::zero(0);
                for ((_, t), v) in f.iter().zip(vs) {
                    r = r.concat(&self.encode(t, v));
                }
                r
            }
            (t, Val::E(i, vs)) => {
                let vars = self.variants(t);
                let mut r = Bv::from_u64(clog2(vars.len()) as usize, *i as u64);
                for ((_, t), v) in vars[*i].1.iter().zip(vs) {
                    r = r.concat(&self.encode(t, v));
                }
                let pad = w - r.w;
                r.concat(&Bv::x(pad))
            }
            _ => panic!("encode: {t:?} {v:?}"),
        }
    }
    /// random value; returns value
    pub fn gen_val(&self, g: &mut crate::tape::Gen, t: &Ty) -> Val {
        match t {
            Ty::Bool => Val::B(g.bool()),
            Ty::UInt(n) => Val::I(g.bits(*n as usize).into()),
            Ty::Int(n) => Val::I(wrap_s(&BigInt::from(g.bits(*n as usize)), *n)),
            Ty::Tup(v) => Val::T(v.iter().map(|t| self.gen_val(g, t)).collect()),
            Ty::Arr(t, n) => Val::T((0..*n).map(|_| self.gen_val(g, t)).collect()),
            Ty::Named(d) if matches!(self.defs[*d].kind, DefKind::Struct(_)) => {
                Val::T(self.fields(*d).iter().map(|f| self.gen_val(g, &f.1)).collect())
            }
            t => {
                let vs = self.variants(t);
                let i = g.below(vs.len() as u64) as usize;
                Val::E(i, vs[i].1.iter().map(|f| self.gen_val(g, &f.1)).collect())
            }
        }
    }
}

pub fn wrap_u(v: &BigInt, n: u32) -> BigInt {
    let m = BigInt::one() << n;
    let r = v % &m;
    if r.is_negative() { r + m } else { r }
}
pub fn wrap_s(v: &BigInt, n: u32) -> BigInt {
    if n == 0 {
        return BigInt::zero();
    }
    let r = wrap_u(v, n);
    if r >= (BigInt::one() << (n - 1)) { r - (BigInt::one() << n) } else { r }
}
pub fn wrap(t: &Ty, v: &BigInt) -> BigInt {
    match t {
        Ty::Int(n) => wrap_s(v, *n),
        Ty::UInt(n) => wrap_u(v, *n),
        _ => panic!("wrap"),
    }
}
pub fn int_w(t: &Ty) -> u32 {
    match t {
        Ty::Int(n) | Ty::UInt(n) => *n,
        _ => panic!("int_w {t:?}"),
    }
}
pub fn is_signed(t: &Ty) -> bool {
    matches!(t, Ty::Int(_))
}

// ------------------------------------------------------------------------------------- interpreter

#[derive(Default, Clone, Debug)]
pub struct InstState {
    pub regs: HashMap<usize, Val>,
    pub mems: HashMap<usize, Vec<Val>>,
    pub children: HashMap<usize, InstState>,
}

pub struct Interp<'a> {
    pub p: &'a Prog,
    pub fuel: std::cell::Cell<u64>,
}

#[derive(Clone)]
pub struct Env {
    pub v: Vec<Option<Val>>,
}

/// Next-state information collected while evaluating an entity for one cycle.
#[derive(Default, Clone, Debug)]
pub struct Next {
    /// reg id -> (clock index, next value)
    pub regs: HashMap<usize, (usize, Val)>,
    pub mems: HashMap<usize, Vec<(Val, Val, Val)>>,
    pub children: HashMap<usize, Next>,
    pub asserts: Vec<(usize, Option<bool>)>,
}

impl<'a> Interp<'a> {
    pub fn new(p: &'a Prog) -> Self {
        Interp { p, fuel: std::cell::Cell::new(2_000_000) }
    }
    /// Some(true) match, Some(false) no match, None unknown. Binds variables regardless.
    pub fn matches(&self, p: &Pat, v: &Val, env: &mut Env) -> Option<bool> {
        match p {
            Pat::Raw(_) => unreachable!(),
            Pat::Wild => Some(true),
            Pat::Bind(i) => {
                env.v[*i] = Some(v.clone());
                Some(true)
            }
            Pat::At(i, p) => {
                env.v[*i] = Some(v.clone());
                self.matches(p, v, env)
            }
            Pat::Bool(b) => match v {
                Val::B(x) => Some(x == b),
                _ => None,
            },
            Pat::Int(b, _) => match v {
                Val::I(x) => Some(x == b),
                _ => None,
            },
            Pat::Tup(ps) | Pat::Arr(ps) | Pat::Struct(_, ps, _) => {
                let vs = match v {
                    Val::T(vs) => vs.clone(),
                    _ => vec![Val::U; ps.len()],
                };
                self.all(ps, &vs, env)
            }
            Pat::Enum(_, i, ps, _) => match v {
                Val::E(j, vs) => {
                    if i == j {
                        self.all(ps, vs, env)
                    } else {
                        self.all(ps, &vec![Val::U; ps.len()], env);
                        Some(false)
                    }
                }
                _ => {
                    self.all(ps, &vec![Val::U; ps.len()], env);
                    None
                }
            },
        }
    }
    fn all(&self, ps: &[Pat], vs: &[Val], env: &mut Env) -> Option<bool> {
        let mut r = Some(true);
        for (p, v) in ps.iter().zip(vs) {
            match self.matches(p, v, env) {
                Some(true) => {}
                Some(false) => r = Some(false),
                None => {
                    if r == Some(true) {
                        r = None
                    }
                }
            }
        }
        r
    }

    pub fn call(&self, f: usize, args: Vec<Val>) -> Val {
        let mut st = InstState::default();
        let mut nx = Next::default();
        self.run(f, args, &mut st, &mut nx)
    }

    /// Evaluate entity/function `f` for one cycle. Reads (and lazily initialises) `st`, fills `nx`.
    pub fn run(&self, f: usize, args: Vec<Val>, st: &mut InstState, nx: &mut Next) -> Val {
        let func = &self.p.fns[f];
        let mut env = Env { v: vec![None; func.var_names.len()] };
        for (p, a) in func.params.iter().zip(args) {
            env.v[*p] = Some(a);
        }
        self.block(&func.body.0, &func.body.1, &mut env, st, nx)
    }

    fn block(&self, sts: &[St], res: &Ex, env: &mut Env, st: &mut InstState, nx: &mut Next) -> Val {
        // pass 1: register outputs are available from the start (their value does not depend on this cycle)
        let flat: Vec<&St> = sts.iter().map(|s| if let St::Hidden(h) = s { &**h } else { s }).collect();
        for s in flat.iter().copied() {
            if let St::Reg(r) = s {
                if !st.regs.contains_key(&r.id) {
                    let init = match &r.initial {
                        Some(e) => {
                            let mut s2 = InstState::default();
                            let mut n2 = Next::default();
                            self.eval(e, env, &mut s2, &mut n2)
                        }
                        None => Val::U,
                    };
                    st.regs.insert(r.id, init);
                }
                let v = st.regs[&r.id].clone();
                self.matches(&r.pat, &v, env);
            }
            if let St::Mem { id, size, init, .. } = s {
                st.mems.entry(*id).or_insert_with(|| match init {
                    Some(v) => v.clone(),
                    None => vec![Val::U; *size as usize],
                });
            }
        }
        // pass 2: data flow in dependency order; the generator emits definitions so that a statement's
        // operands are either earlier statements, registers, or (through decl) later ones. Iterate to a
        // fixed point over statements whose operands are not available yet.
        let mut todo: Vec<&St> = flat;
        loop {
            let mut rest = vec![];
            let n = todo.len();
            for s in todo {
                if !self.ready(s, env) {
                    rest.push(s);
                    continue;
                }
                match s {
                    St::Let(p, _, _, e) => {
                        let v = self.eval(e, env, st, nx);
                        self.matches(p, &v, env);
                    }
                    St::Decl(_) | St::Blank | St::Text(_) | St::Stage(..) => {}
                    St::Hidden(_) => unreachable!(),
                    St::Reg(r) => {
                        let v = self.eval(&r.value, env, st, nx);
                        let v = match &r.reset {
                            Some((c, rv)) => {
                                let c = self.eval(c, env, st, nx);
                                let rv = self.eval(rv, env, st, nx);
                                match c {
                                    Val::B(true) => rv,
                                    Val::B(false) => v,
                                    _ => Val::U,
                                }
                            }
                            None => v,
                        };
                        nx.regs.insert(r.id, (r.clk, v));
                    }
                    St::Inst { id, pat, ent, args, .. } => {
                        let a: Vec<Val> = args.iter().map(|a| self.eval(a, env, st, nx)).collect();
                        let cst = st.children.entry(*id).or_default();
                        let mut cnx = Next::default();
                        let v = self.run(*ent, a, cst, &mut cnx);
                        nx.children.insert(*id, cnx);
                        self.matches(pat, &v, env);
                    }
                    St::Mem { id, writes, .. } => {
                        let w: Vec<_> = writes
                            .iter()
                            .map(|(a, b, c)| (self.eval(a, env, st, nx), self.eval(b, env, st, nx), self.eval(c, env, st, nx)))
                            .collect();
                        nx.mems.insert(*id, w);
                    }
                    St::MemRead { var, mem, addr, .. } => {
                        let a = self.eval(addr, env, st, nx);
                        let v = match a {
                            Val::I(i) => st.mems[mem].get(i.to_usize().unwrap_or(usize::MAX)).cloned().unwrap_or(Val::U),
                            _ => Val::U,
                        };
                        env.v[*var] = Some(v);
                    }
                    St::Assert { id, cond } => {
                        let v = self.eval(cond, env, st, nx);
                        nx.asserts.push((
                            *id,
                            match v {
                                Val::B(b) => Some(b),
                                _ => None,
                            },
                        ));
                    }
                }
            }
            if rest.is_empty() {
                break;
            }
            if rest.len() == n {
                panic!("reference model: combinational dependency is not resolvable");
            }
            todo = rest;
        }
        self.eval(res, env, st, nx)
    }

    fn ready(&self, s: &St, env: &Env) -> bool {
        let mut ok = true;
        let mut chk = |e: &Ex| {
            let mut bound = vec![];
            if !vars_avail(e, env, &mut bound) {
                ok = false
            }
        };
        match s {
            St::Let(_, _, _, e) => chk(e),
            St::Decl(_) | St::Blank | St::Text(_) | St::Stage(..) | St::Hidden(_) => {}
            St::Reg(r) => {
                chk(&r.value);
                if let Some((a, b)) = &r.reset {
                    chk(a);
                    chk(b);
                }
            }
            St::Inst { args, .. } => args.iter().for_each(chk),
            St::Mem { writes, .. } => writes.iter().for_each(|(a, b, c)| {
                chk(a);
                chk(b);
                chk(c)
            }),
            St::MemRead { addr, .. } => chk(addr),
            St::Assert { cond, .. } => chk(cond),
        }
        ok
    }

    pub fn eval(&self, e: &Ex, env: &mut Env, st: &mut InstState, nx: &mut Next) -> Val {
        let f = self.fuel.get();
        if f == 0 {
            return Val::U;
        }
        self.fuel.set(f - 1);
        macro_rules! ev {
            ($e:expr) => {
                self.eval($e, env, st, nx)
            };
        }
        match &*e.k {
            K::Lit(v, _) => v.clone(),
            K::Var(i) => env.v[*i].clone().unwrap_or_else(|| panic!("reference model: unbound variable {i}")),
            K::Raw(_, i) => env.v[*i].clone().unwrap_or_else(|| panic!("reference model: unbound raw {i}")),
            K::Undef => Val::U,
            K::Bin(op, a, b) => {
                let va = ev!(a);
                let vb = ev!(b);
                bin(self.p, *op, &a.ty, &e.ty, &va, &vb)
            }
            K::Un(op, a) => {
                let v = ev!(a);
                match (op, v) {
                    (_, Val::U) => Val::U,
                    (UOp::Not, Val::B(b)) => Val::B(!b),
                    (UOp::Neg | UOp::WNeg, Val::I(i)) => Val::I(wrap(&e.ty, &-i)),
                    (UOp::BNot, Val::I(i)) => Val::I(wrap(&e.ty, &(-i - BigInt::one()))),
                    (UOp::BNot, Val::T(v)) => Val::T(
                        v.into_iter()
                            .map(|b| match b {
                                Val::B(b) => Val::B(!b),
                                _ => Val::U,
                            })
                            .collect(),
                    ),
                    x => panic!("un {x:?}"),
                }
            }
            K::If(c, a, b) => {
                let c = ev!(c);
                let a = ev!(a);
                let b = ev!(b);
                match c {
                    Val::B(true) => a,
                    Val::B(false) => b,
                    _ => Val::U,
                }
            }
            K::GenIf(_, c, a, b) => {
                if *c {
                    ev!(a)
                } else {
                    ev!(b)
                }
            }
            K::IfLet(p, s, a, b) => {
                let v = ev!(s);
                match self.matches(p, &v, env) {
                    Some(true) => ev!(a),
                    Some(false) => ev!(b),
                    None => Val::U,
                }
            }
            K::Match(s, arms) => {
                let v = ev!(s);
                for (p, gd, r) in arms {
                    match self.matches(p, &v, env) {
                        Some(true) => match gd {
                            None => return ev!(r),
                            Some(gd) => match ev!(gd) {
                                Val::B(true) => return ev!(r),
                                Val::B(false) => {}
                                _ => return Val::U,
                            },
                        },
                        Some(false) => {}
                        None => return Val::U,
                    }
                }
                Val::U
            }
            K::Tup(v) | K::Arr(v) | K::Struct(v, _) => Val::T(v.iter().map(|e| ev!(e)).collect()),
            K::ArrRep(x, n) => {
                let v = ev!(x);
                Val::T(vec![v; *n as usize])
            }
            K::TupIdx(a, i) | K::Field(a, i) => match ev!(a) {
                Val::T(v) => v[*i].clone(),
                _ => Val::U,
            },
            K::ArrIdx(a, i) => {
                let va = ev!(a);
                let vi = ev!(i);
                match (va, vi) {
                    (Val::T(v), Val::I(i)) => v.get(i.to_usize().unwrap_or(usize::MAX)).cloned().unwrap_or(Val::U),
                    _ => Val::U,
                }
            }
            K::ArrRange(a, lo, hi) => {
                let va = ev!(a);
                match va {
                    Val::T(v) => {
                        let lo = lo.unwrap_or(0) as usize;
                        let hi = hi.map(|x| x as usize).unwrap_or(v.len());
                        Val::T(v[lo..hi].to_vec())
                    }
                    _ => Val::U,
                }
            }
            K::Enum(i, v, _) => Val::E(*i, v.iter().map(|e| ev!(e)).collect()),
            K::Call(Callee::Fn(f) | Callee::Method(f), args, _) => {
                let a: Vec<Val> = args.iter().map(|e| ev!(e)).collect();
                self.call(*f, a)
            }
            K::Block(s, r) => self.block(s, r, env, st, nx),
            K::Lambda(args, body) => {
                for (p, a) in args {
                    let v = ev!(a);
                    self.matches(p, &v, env);
                }
                ev!(body)
            }
            K::Conv(c, a) => {
                let v = ev!(a);
                conv(*c, &a.ty, &e.ty, v)
            }
            K::NumConcat(a, b) => {
                let va = ev!(a);
                let vb = ev!(b);
                match (va, vb) {
                    (Val::I(x), Val::I(y)) => {
                        let wb = int_w(&b.ty);
                        Val::I(wrap(&e.ty, &((wrap_u(&x, int_w(&a.ty)) << wb) + wrap_u(&y, wb))))
                    }
                    _ => Val::U,
                }
            }
        }
    }

    /// Apply a clock edge on clock `clk` (index in the top's clock list): commits registers.
    /// `clkmap` maps an instance's clock index to the top's.
    pub fn commit(&self, f: usize, st: &mut InstState, nx: &Next, clk: usize) {
        for (id, (c, v)) in &nx.regs {
            if *c == clk {
                st.regs.insert(*id, v.clone());
            }
        }
        for (id, ws) in nx.mems.iter().filter(|_| clk == 0) {
            // memories are always on the first clock
            let m = st.mems.get_mut(id).unwrap();
            for (we, a, d) in ws {
                match we {
                    Val::B(false) => {}
                    Val::B(true) => match a {
                        Val::I(i) => {
                            if let Some(x) = m.get_mut(i.to_usize().unwrap_or(usize::MAX)) {
                                *x = d.clone()
                            }
                        }
                        _ => m.iter_mut().for_each(|x| *x = Val::U),
                    },
                    _ => match a {
                        Val::I(i) => {
                            if let Some(x) = m.get_mut(i.to_usize().unwrap_or(usize::MAX)) {
                                *x = Val::U
                            }
                        }
                        _ => m.iter_mut().for_each(|x| *x = Val::U),
                    },
                }
            }
        }
        for (id, c) in &nx.children {
            self.commit(f, st.children.get_mut(id).unwrap(), c, clk);
        }
    }
}

pub fn pat_vars(p: &Pat, out: &mut Vec<usize>) {
    match p {
        Pat::Bind(i) => out.push(*i),
        Pat::At(i, p) => {
            out.push(*i);
            pat_vars(p, out)
        }
        Pat::Tup(v) | Pat::Arr(v) | Pat::Struct(_, v, _) | Pat::Enum(_, _, v, _) => v.iter().for_each(|p| pat_vars(p, out)),
        _ => {}
    }
}
/// are all free variables of e available
fn vars_avail(e: &Ex, env: &Env, bound: &mut Vec<usize>) -> bool {
    macro_rules! go {
        ($e:expr) => {
            vars_avail($e, env, bound)
        };
    }
    match &*e.k {
        K::Lit(..) | K::Undef => true,
        K::Var(i) | K::Raw(_, i) => bound.contains(i) || env.v[*i].is_some(),
        K::Bin(_, a, b) | K::NumConcat(a, b) | K::ArrIdx(a, b) => go!(a) && go!(b),
        K::Un(_, a) | K::TupIdx(a, _) | K::Field(a, _) | K::ArrRange(a, _, _) | K::ArrRep(a, _) | K::Conv(_, a) => go!(a),
        K::If(a, b, c) => go!(a) && go!(b) && go!(c),
        K::GenIf(_, c, a, b) => {
            if *c {
                go!(a)
            } else {
                go!(b)
            }
        }
        K::IfLet(p, s, a, b) => {
            if !go!(s) {
                return false;
            }
            let n = bound.len();
            pat_vars(p, bound);
            let r = go!(a);
            bound.truncate(n);
            r && go!(b)
        }
        K::Match(s, arms) => {
            if !go!(s) {
                return false;
            }
            for (p, g, r) in arms {
                let n = bound.len();
                pat_vars(p, bound);
                let ok = g.as_ref().map(|g| vars_avail(g, env, bound)).unwrap_or(true) && go!(r);
                bound.truncate(n);
                if !ok {
                    return false;
                }
            }
            true
        }
        K::Tup(v) | K::Arr(v) | K::Struct(v, _) | K::Enum(_, v, _) | K::Call(_, v, _) => v.iter().all(|e| vars_avail(e, env, bound)),
        K::Lambda(args, body) => {
            for (_, a) in args {
                if !go!(a) {
                    return false;
                }
            }
            let n = bound.len();
            for (p, _) in args {
                pat_vars(p, bound);
            }
            let r = go!(body);
            bound.truncate(n);
            r
        }
        K::Block(sts, r) => {
            let n = bound.len();
            let mut ok = true;
            for s in sts {
                match s {
                    St::Let(p, ..) | St::Inst { pat: p, .. } => pat_vars(p, bound),
                    St::Reg(r) => pat_vars(&r.pat, bound),
                    St::MemRead { var, .. } => bound.push(*var),
                    _ => {}
                }
            }
            for s in sts {
                match s {
                    St::Let(_, _, _, e) => ok &= go!(e),
                    St::Reg(r) => {
                        ok &= go!(&r.value);
                        if let Some((a, b)) = &r.reset {
                            ok &= go!(a) && go!(b);
                        }
                    }
                    St::Inst { args, .. } => ok &= args.iter().all(|e| vars_avail(e, env, bound)),
                    St::Mem { writes, .. } => {
                        for (a, b, c) in writes {
                            ok &= go!(a) && go!(b) && go!(c)
                        }
                    }
                    St::MemRead { addr, .. } => ok &= go!(addr),
                    St::Assert { cond, .. } => ok &= go!(cond),
                    _ => {}
                }
            }
            ok = ok && go!(r);
            bound.truncate(n);
            ok
        }
    }
}

pub fn val_eq(a: &Val, b: &Val) -> Option<bool> {
    match (a, b) {
        (Val::U, _) | (_, Val::U) => None,
        (Val::B(a), Val::B(b)) => Some(a == b),
        (Val::I(a), Val::I(b)) => Some(a == b),
        (Val::T(a), Val::T(b)) => val_eqs(a, b),
        (Val::E(i, a), Val::E(j, b)) => {
            if i != j {
                Some(false)
            } else {
                val_eqs(a, b)
            }
        }
        _ => panic!("val_eq"),
    }
}
fn val_eqs(a: &[Val], b: &[Val]) -> Option<bool> {
    // strict: any unknown -> unknown
    let mut r = Some(true);
    for (x, y) in a.iter().zip(b) {
        match val_eq(x, y) {
            None => return None,
            Some(false) => r = Some(false),
            _ => {}
        }
    }
    r
}

pub fn bin(_p: &Prog, op: Op, at: &Ty, rt: &Ty, a: &Val, b: &Val) -> Val {
    let ob = |x: Option<bool>| x.map(Val::B).unwrap_or(Val::U);
    match op {
        Op::Eq => return ob(val_eq(a, b)),
        Op::Ne => return ob(val_eq(a, b).map(|x| !x)),
        _ => {}
    }
    match (a, b) {
        (Val::U, _) | (_, Val::U) => Val::U,
        (Val::B(a), Val::B(b)) => Val::B(match op {
            Op::LAnd | Op::And => *a && *b,
            Op::LOr | Op::Or => *a || *b,
            Op::LXor | Op::Xor => a != b,
            _ => panic!(),
        }),
        (Val::T(x), Val::T(y)) => Val::T(x.iter().zip(y).map(|(x, y)| bin(_p, op, &Ty::Bool, &Ty::Bool, x, y)).collect()),
        (Val::I(x), Val::I(y)) => {
            let w = int_w(at);
            let r = match op {
                Op::Add | Op::WAdd => x + y,
                Op::Sub | Op::WSub => x - y,
                Op::Mul | Op::WMul => x * y,
                // truncating division, remainder has the sign of the dividend
                Op::Div => {
                    if y.is_zero() {
                        return Val::U;
                    }
                    x / y
                }
                Op::Mod => {
                    if y.is_zero() {
                        return Val::U;
                    }
                    x % y
                }
                Op::Lt => return Val::B(x < y),
                Op::Le => return Val::B(x <= y),
                Op::Gt => return Val::B(x > y),
                Op::Ge => return Val::B(x >= y),
                Op::Shl | Op::WShl => {
                    let s = wrap_u(y, w);
                    match s.to_u32() {
                        Some(s) if s < w => wrap_u(x, w) << s,
                        _ => BigInt::zero(),
                    }
                }
                Op::Shr | Op::WShr => {
                    let s = wrap_u(y, w);
                    match s.to_u32() {
                        Some(s) if s < w => wrap_u(x, w) >> s,
                        _ => BigInt::zero(),
                    }
                }
                Op::Ashr => {
                    let s = wrap_u(y, w);
                    let xs = wrap_s(x, w);
                    let s = s.to_u32().unwrap_or(w).min(w);
                    // arithmetic shift: floor division
                    let d = BigInt::one() << s;
                    let (q, r) = (&xs / &d, &xs % &d);
                    if r.is_negative() { q - 1 } else { q }
                }
                Op::And | Op::Or | Op::Xor => {
                    let a: BigUint = wrap_u(x, w).to_biguint().unwrap();
                    let b: BigUint = wrap_u(y, w).to_biguint().unwrap();
                    BigInt::from(match op {
                        Op::And => a & b,
                        Op::Or => a | b,
                        _ => a ^ b,
                    })
                }
                _ => panic!("{op:?}"),
            };
            Val::I(wrap(rt, &r))
        }
        _ => panic!("bin {op:?} {a:?} {b:?}"),
    }
}

pub fn conv(c: Conv, at: &Ty, rt: &Ty, v: Val) -> Val {
    if v == Val::U {
        return Val::U;
    }
    match (c, v) {
        (Conv::Trunc | Conv::TruncMethod | Conv::Zext | Conv::Sext | Conv::AsInt | Conv::AsUint | Conv::ToInt, Val::I(i)) => Val::I(wrap(rt, &i)),
        (Conv::AsBits, Val::I(i)) => {
            let w = int_w(at);
            let u = wrap_u(&i, w);
            Val::T((0..w).map(|k| Val::B(u.bit(k as u64))).collect())
        }
        (Conv::BitsAsInt | Conv::BitsAsUint, Val::T(v)) => {
            let mut r = BigInt::zero();
            for (k, b) in v.iter().enumerate() {
                match b {
                    Val::B(true) => r += BigInt::one() << k,
                    Val::B(false) => {}
                    _ => return Val::U,
                }
            }
            Val::I(wrap(rt, &r))
        }
        (Conv::BoolAsUint, Val::B(b)) => Val::I((b as u32).into()),
        (c, v) => panic!("conv {c:?} {v:?}"),
    }
}

// ------------------------------------------------------------------------------------- printer

/// How to print: renaming of all user names, and layout choices.
pub struct Names<'a> {
    pub prefix: String,
    /// maps (kind, original) to the printed identifier; kind: 'v' variable, 't' type, 'f' unit, 'm' field/variant/method
    pub map: Option<&'a dyn Fn(char, &str) -> String>,
    pub redundant_parens: bool,
    pub qualify: String,
}
impl<'a> Names<'a> {
    pub fn plain(prefix: &str) -> Names<'static> {
        Names { prefix: prefix.to_string(), map: None, redundant_parens: false, qualify: String::new() }
    }
    pub fn n(&self, kind: char, s: &str) -> String {
        let s = match kind {
            't' | 'f' => format!("{}{}", self.prefix, s),
            _ => s.to_string(),
        };
        match self.map {
            Some(f) => f(kind, &s),
            None => s,
        }
    }
}

pub struct Printer<'a> {
    pub p: &'a Prog,
    pub n: Names<'a>,
}

impl<'a> Printer<'a> {
    pub fn ty(&self, t: &Ty) -> String {
        match t {
            Ty::Bool => "bool".into(),
            Ty::Int(n) => format!("int<{n}>"),
            Ty::UInt(n) => format!("uint<{n}>"),
            Ty::Tup(v) => format!("({})", v.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")),
            Ty::Arr(t, n) => format!("[{}; {n}]", self.ty(t)),
            Ty::Named(d) => self.n.n('t', &self.p.defs[*d].name),
            Ty::Opt(t) => format!("Option<{}>", self.ty(t)),
        }
    }
    pub fn def(&self, d: usize) -> String {
        let mut s = String::new();
        let def = &self.p.defs[d];
        let name = self.n.n('t', &def.name);
        let q = if self.n.qualify.is_empty() { "" } else { "pub " };
        match &def.kind {
            DefKind::Struct(f) => {
                let _ = write!(s, "{q}struct {name} {{ ");
                for (n, t) in f {
                    let _ = write!(s, "{}: {}, ", self.n.n('m', n), self.ty(t));
                }
                s.push_str("}\n");
            }
            DefKind::Enum(v) => {
                let _ = write!(s, "{q}enum {name} {{ ");
                for (n, f) in v {
                    let _ = write!(s, "{}", self.n.n('m', n));
                    if !f.is_empty() {
                        s.push_str(" { ");
                        for (n, t) in f {
                            let _ = write!(s, "{}: {}, ", self.n.n('m', n), self.ty(t));
                        }
                        s.push('}');
                    }
                    s.push_str(", ");
                }
                s.push_str("}\n");
            }
        }
        s
    }
    pub fn variant_path(&self, t: &Ty, i: usize) -> String {
        match t {
            Ty::Opt(_) => if i == 0 { "None".into() } else { "Some".into() },
            Ty::Named(d) => {
                let v = &self.p.variants(t)[i].0;
                format!("{}::{}", self.n.n('t', &self.p.defs[*d].name), self.n.n('m', v))
            }
            _ => panic!(),
        }
    }
    pub fn pat(&self, p: &Pat, f: &Func, ty: &Ty) -> String {
        match p {
            Pat::Wild => "_".into(),
            Pat::Raw(s) => s.clone(),
            Pat::Bind(i) => self.n.n('v', &f.var_names[*i]),
            Pat::At(i, p) => format!("{} @ {}", self.n.n('v', &f.var_names[*i]), self.pat(p, f, ty)),
            Pat::Bool(b) => b.to_string(),
            Pat::Int(v, suf) => {
                if *suf {
                    format!("{v}{}", suffix(ty))
                } else {
                    v.to_string()
                }
            }
            Pat::Tup(v) => {
                let Ty::Tup(ts) = ty else { panic!() };
                format!("({})", v.iter().zip(ts).map(|(p, t)| self.pat(p, f, t)).collect::<Vec<_>>().join(", "))
            }
            Pat::Arr(v) => {
                let Ty::Arr(t, _) = ty else { panic!() };
                format!("[{}]", v.iter().map(|p| self.pat(p, f, t)).collect::<Vec<_>>().join(", "))
            }
            Pat::Struct(d, ps, style) => {
                let fs = self.p.fields(*d);
                let items: Vec<(String, String, bool)> = ps
                    .iter()
                    .zip(fs)
                    .map(|(p, (n, t))| {
                        let n = self.n.n('m', n);
                        let pt = self.pat(p, f, t);
                        let short = matches!(p, Pat::Bind(_)) && n == pt;
                        (n, pt, short)
                    })
                    .collect();
                format!("{}{}", self.n.n('t', &self.p.defs[*d].name), self.args(items, style))
            }
            Pat::Enum(t, i, ps, style) => {
                let vs = self.p.variants(t);
                if vs[*i].1.is_empty() {
                    return self.variant_path(t, *i);
                }
                let items = ps
                    .iter()
                    .zip(&vs[*i].1)
                    .map(|(p, (n, t))| {
                        let n = self.n.n('m', n);
                        let pt = self.pat(p, f, t);
                        let short = matches!(p, Pat::Bind(_)) && n == pt;
                        (n, pt, short)
                    })
                    .collect();
                format!("{}{}", self.variant_path(t, *i), self.args(items, style))
            }
        }
    }
    fn args(&self, items: Vec<(String, String, bool)>, style: &ArgStyle) -> String {
        match style {
            ArgStyle::Pos => format!("({})", items.into_iter().map(|x| x.1).collect::<Vec<_>>().join(", ")),
            ArgStyle::Named(perm) => {
                let v: Vec<String> = perm
                    .iter()
                    .map(|i| {
                        let (n, e, short) = &items[*i];
                        if *short { n.clone() } else { format!("{n}: {e}") }
                    })
                    .collect();
                format!("$({})", v.join(", "))
            }
        }
    }
    pub fn lit(&self, ty: &Ty, v: &Val, style: u8, synth: bool) -> String {
        match (ty, v) {
            (Ty::Bool, Val::B(b)) => b.to_string(),
            (Ty::Int(_) | Ty::UInt(_), Val::I(i)) => {
                let (neg, m) = (i.is_negative(), i.abs());
                let body = match style {
                    2 => format!("0x{}", m.to_str_radix(16)),
                    3 => format!("0b{}", m.to_str_radix(2)),
                    4 => {
                        // underscores
                        let d = m.to_string();
                        if d.len() > 1 { format!("{}_{}", &d[..1], &d[1..]) } else { d }
                    }
                    _ => m.to_string(),
                };
                let suf = if synth || style == 1 { suffix(ty) } else { String::new() };
                let t = format!("{body}{suf}");
                if neg { format!("(-{t})") } else { t }
            }
            (Ty::Tup(ts), Val::T(vs)) => {
                format!("({})", ts.iter().zip(vs).map(|(t, v)| self.lit(t, v, style, synth)).collect::<Vec<_>>().join(", "))
            }
            (Ty::Arr(t, _), Val::T(vs)) => format!("[{}]", vs.iter().map(|v| self.lit(t, v, style, synth)).collect::<Vec<_>>().join(", ")),
            (Ty::Named(d), Val::T(vs)) => {
                let fs = self.p.fields(*d);
                format!(
                    "{}({})",
                    self.n.n('t', &self.p.defs[*d].name),
                    fs.iter().zip(vs).map(|((_, t), v)| self.lit(t, v, style, false)).collect::<Vec<_>>().join(", ")
                )
            }
            (t, Val::E(i, vs)) => {
                let vars = self.p.variants(t);
                if vars[*i].1.is_empty() {
                    return self.variant_path(t, *i);
                }
                format!(
                    "{}({})",
                    self.variant_path(t, *i),
                    vars[*i].1.iter().zip(vs).map(|((_, t), v)| self.lit(t, v, style, synth)).collect::<Vec<_>>().join(", ")
                )
            }
            x => panic!("lit {x:?}"),
        }
    }
    fn wrap_typed(&self, ty: &Ty, s: String) -> String {
        format!("{{ let t_: {} = {s}; t_ }}", self.ty(ty))
    }
    /// print `e`; `synth`: the context does not determine the type; `min`: minimum precedence (12 = atom)
    pub fn ex(&self, e: &Ex, f: &Func, synth: bool, min: u32) -> String {
        let par = |s: String, need: bool| if need || self.n.redundant_parens { format!("({s})") } else { s };
        match &*e.k {
            K::Lit(v, style) => {
                if synth && needs_ann(&e.ty, v) {
                    self.wrap_typed(&e.ty, self.lit(&e.ty, v, *style, false))
                } else {
                    self.lit(&e.ty, v, *style, synth)
                }
            }
            K::Var(i) => self.n.n('v', &f.var_names[*i]),
            K::Raw(s, _) => s.clone(),
            K::Undef => {
                if synth {
                    self.wrap_typed(&e.ty, "undef()".into())
                } else {
                    "undef()".into()
                }
            }
            K::Bin(op, a, b) => {
                let pr = op.prec();
                let opsynth = match op {
                    Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge => true,
                    Op::Mul | Op::LAnd | Op::LOr | Op::LXor => true,
                    Op::WAdd | Op::WSub | Op::WMul | Op::WShl | Op::WShr | Op::And | Op::Or | Op::Xor => true,
                    _ => synth,
                };
                // a literal divisor must stay a plain literal
                let bs = match op {
                    Op::Mul => true,
                    Op::Add | Op::Sub | Op::Shl | Op::Shr | Op::Ashr | Op::Div | Op::Mod => false,
                    Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge | Op::And | Op::Or | Op::Xor | Op::LAnd | Op::LOr | Op::LXor => true,
                    _ => opsynth,
                };
                let s = format!("{} {} {}", self.ex(a, f, opsynth, pr - 1), op.text(), self.ex(b, f, bs, pr));
                par(s, pr <= min)
            }
            K::Un(op, a) => {
                let o = match op {
                    UOp::Neg => "-",
                    UOp::WNeg => "-.",
                    UOp::Not => "!",
                    UOp::BNot => "~",
                };
                let s = match op {
                    UOp::WNeg => format!("{o}{}", self.ex(a, f, true, 12)),
                    UOp::BNot => format!("{o}{}", self.ex(a, f, true, 12)),
                    UOp::Neg => format!("{o}{}", {
                        // `-<literal>` would become a literal of its own
                        let t = self.ex(a, f, synth, 12);
                        if matches!(*a.k, K::Lit(..)) { format!("({t})") } else { t }
                    }),
                    UOp::Not => format!("{o}{}", self.ex(a, f, true, 12)),
                };
                par(s, 12 <= min)
            }
            K::If(c, a, b) => {
                let s = format!("if {} {} else {}", self.ex(c, f, false, 0), self.braced(a, f, synth), self.braced(b, f, synth));
                par(s, min > 0)
            }
            K::GenIf(c, _, a, b) => {
                let s = format!("gen if {c} {} else {}", self.braced(a, f, synth), self.braced(b, f, synth));
                par(s, min > 0)
            }
            K::IfLet(p, sc, a, b) => {
                let s = format!(
                    "if let {} = {} {} else {}",
                    self.pat(p, f, &sc.ty),
                    self.ex(sc, f, true, 0),
                    self.braced(a, f, synth),
                    self.braced(b, f, synth)
                );
                par(s, min > 0)
            }
            K::Match(sc, arms) => {
                let mut s = format!("match {} {{ ", self.ex(sc, f, true, 0));
                for (p, g, r) in arms {
                    let _ = write!(s, "{}", self.pat(p, f, &sc.ty));
                    if let Some(g) = g {
                        let _ = write!(s, " if {}", self.ex(g, f, false, 0));
                    }
                    let _ = write!(s, " => {}, ", self.ex(r, f, synth, 0));
                }
                s.push('}');
                par(s, min > 0)
            }
            K::Tup(v) => format!("({})", v.iter().map(|e| self.ex(e, f, synth, 0)).collect::<Vec<_>>().join(", ")),
            K::TupIdx(a, i) => format!("{}.{i}", self.ex(a, f, true, 20)),
            K::Arr(v) => {
                if v.is_empty() && synth {
                    self.wrap_typed(&e.ty, "[]".into())
                } else {
                    format!("[{}]", v.iter().map(|e| self.ex(e, f, synth, 0)).collect::<Vec<_>>().join(", "))
                }
            }
            K::ArrRep(x, n) => format!("[{}; {n}]", self.ex(x, f, synth, 0)),
            K::ArrIdx(a, i) => format!("{}[{}]", self.ex(a, f, true, 20), self.ex(i, f, false, 0)),
            K::ArrRange(a, lo, hi) => {
                let t = |x: &Option<u32>| x.map(|x| x.to_string()).unwrap_or_default();
                format!("{}[{}..{}]", self.ex(a, f, true, 20), t(lo), t(hi))
            }
            K::Struct(v, style) => {
                let Ty::Named(d) = &e.ty else { panic!() };
                let items = v
                    .iter()
                    .zip(self.p.fields(*d))
                    .map(|(x, (n, _))| {
                        let n = self.n.n('m', n);
                        let t = self.ex(x, f, false, 0);
                        let short = matches!(*x.k, K::Var(_)) && t == n;
                        (n, t, short)
                    })
                    .collect();
                format!("{}{}", self.n.n('t', &self.p.defs[*d].name), self.args(items, style))
            }
            K::Field(a, i) => {
                let Ty::Named(d) = &a.ty else { panic!() };
                format!("{}.{}", self.ex(a, f, true, 20), self.n.n('m', &self.p.fields(*d)[*i].0))
            }
            K::Enum(i, v, style) => {
                let vs = self.p.variants(&e.ty);
                if vs[*i].1.is_empty() {
                    let s = self.variant_path(&e.ty, *i);
                    return if synth && matches!(e.ty, Ty::Opt(_)) { self.wrap_typed(&e.ty, s) } else { s };
                }
                let sub_synth = synth && matches!(e.ty, Ty::Opt(_));
                let items = v
                    .iter()
                    .zip(&vs[*i].1)
                    .map(|(x, (n, _))| {
                        let n = self.n.n('m', n);
                        let t = self.ex(x, f, sub_synth, 0);
                        let short = matches!(*x.k, K::Var(_)) && t == n;
                        (n, t, short)
                    })
                    .collect();
                format!("{}{}", self.variant_path(&e.ty, *i), self.args(items, style))
            }
            K::Call(c, v, style) => {
                let (Callee::Fn(fi) | Callee::Method(fi)) = c;
                let callee = &self.p.fns[*fi];
                let skip = if matches!(c, Callee::Method(_)) { 1 } else { 0 };
                let items: Vec<_> = v
                    .iter()
                    .enumerate()
                    .skip(skip)
                    .map(|(k, x)| {
                        let n = self.n.n('v', &callee.var_names[callee.params[k]]);
                        let t = self.ex(x, f, false, 0);
                        let short = matches!(*x.k, K::Var(_)) && t == n;
                        (n, t, short)
                    })
                    .collect();
                let style = match style {
                    ArgStyle::Named(p) if skip == 1 => ArgStyle::Named(p.iter().filter(|i| **i > 0).map(|i| i - 1).collect()),
                    s => s.clone(),
                };
                match c {
                    Callee::Fn(_) => format!("{}{}", self.n.n('f', &callee.name), self.args(items, &style)),
                    Callee::Method(_) => {
                        format!("{}.{}{}", self.ex(&v[0], f, true, 20), self.n.n('m', &callee.name), self.args(items, &style))
                    }
                }
            }
            K::Block(s, r) => self.block(s, r, f, synth),
            K::Lambda(args, body) => {
                let pats: Vec<String> = args.iter().map(|(p, a)| self.pat(p, f, &a.ty)).collect();
                let vals: Vec<String> = args.iter().map(|(_, a)| self.ex(a, f, true, 0)).collect();
                let tup = if vals.len() == 1 { format!("({},)", vals[0]) } else { format!("({})", vals.join(", ")) };
                // the body is checked before the call: give projected arguments their type back
                let mut vars = vec![];
                args.iter().for_each(|(p, _)| pat_vars(p, &mut vars));
                let rebind: String = vars
                    .iter()
                    .map(|v| {
                        let n = self.n.n('v', &f.var_names[*v]);
                        format!("let {n}: {} = {n}; ", self.ty(&f.var_tys[*v]))
                    })
                    .collect();
                let b = format!("{{ {rebind}let r_: {} = {}; r_ }}", self.ty(&e.ty), self.ex(body, f, false, 0));
                format!("{{ let lam_ = fn |{}| {b}; let r_: {} = lam_.call({tup}); r_ }}", pats.join(", "), self.ty(&e.ty))
            }
            K::Conv(c, a) => {
                let (pre, post) = match c {
                    Conv::Trunc => ("trunc(", ")"),
                    Conv::Zext => ("zext(", ")"),
                    Conv::Sext => ("sext(", ")"),
                    Conv::TruncMethod => ("", ".trunc()"),
                    Conv::AsInt => ("", ".as_int()"),
                    Conv::AsUint => ("", ".as_uint()"),
                    Conv::AsBits => ("", ".as_bits()"),
                    Conv::ToInt => ("", ".to_int()"),
                    Conv::BitsAsInt => ("", ".as_int()"),
                    Conv::BitsAsUint => ("", ".as_uint()"),
                    Conv::BoolAsUint => ("", ".as_uint()"),
                };
                if pre.is_empty() {
                    if *c == Conv::TruncMethod {
                        format!("{}.trunc::<{}>()", self.ex(a, f, true, 20), int_w(&e.ty))
                    } else {
                        format!("{}{post}", self.ex(a, f, true, 20))
                    }
                } else {
                    let s = format!("{pre}{}{post}", self.ex(a, f, true, 0));
                    if synth { self.wrap_typed(&e.ty, s) } else { s }
                }
            }
            K::NumConcat(a, b) => format!("{}.concat({})", self.ex(a, f, true, 20), self.ex(b, f, true, 0)),
        }
    }
    fn braced(&self, e: &Ex, f: &Func, synth: bool) -> String {
        match &*e.k {
            K::Block(s, r) => self.block(s, r, f, synth),
            _ => format!("{{ {} }}", self.ex(e, f, synth, 0)),
        }
    }
    pub fn block(&self, s: &[St], r: &Ex, f: &Func, synth: bool) -> String {
        let mut o = String::from("{\n");
        for s in s {
            o.push_str(&self.stmt(s, f));
        }
        o.push_str(&self.ex(r, f, synth, 0));
        o.push_str("\n}");
        o
    }
    pub fn stmt(&self, s: &St, f: &Func) -> String {
        let ann = |a: bool, t: &Ty| if a { format!(": {}", self.ty(t)) } else { String::new() };
        match s {
            St::Blank | St::Hidden(_) => String::new(),
            St::Text(t) => format!("{t}\n"),
            St::Stage(c, n) => {
                let c = c.as_ref().map(|c| format!("[{}]", self.ex(c, f, false, 0))).unwrap_or_default();
                if *n == 1 { format!("reg{c};\n") } else { format!("reg{c} * {n};\n") }
            }
            St::Let(p, t, a, e) => format!("let {}{} = {};\n", self.pat(p, f, t), ann(*a, t), self.ex(e, f, !*a, 0)),
            St::Decl(v) => format!("decl {};\n", v.iter().map(|i| self.n.n('v', &f.var_names[*i])).collect::<Vec<_>>().join(", ")),
            St::Reg(r) => {
                let mut o = format!("reg({}) {}{}", self.n.n('v', &f.clocks[r.clk]), self.pat(&r.pat, f, &r.ty), ann(r.ann, &r.ty));
                let rs = r.reset.as_ref().map(|(c, v)| format!(" reset({}: {})", self.ex(c, f, false, 0), self.ex(v, f, false, 0))).unwrap_or_default();
                let is = r.initial.as_ref().map(|v| format!(" initial({})", self.ex(v, f, false, 0))).unwrap_or_default();
                if r.reset_first {
                    o.push_str(&rs);
                    o.push_str(&is);
                } else {
                    o.push_str(&is);
                    o.push_str(&rs);
                }
                let _ = write!(o, " = {};\n", self.ex(&r.value, f, !r.ann, 0));
                o
            }
            St::Inst { pat, ty, ann: a, ent, args, style, .. } => {
                let callee = &self.p.fns[*ent];
                let mut items: Vec<(String, String, bool)> = vec![];
                for (k, c) in callee.clocks.iter().enumerate() {
                    let n = self.n.n('v', c);
                    let t = self.n.n('v', &f.clocks[k]);
                    let short = n == t;
                    items.push((n, t, short));
                }
                let nc = items.len();
                for (k, x) in args.iter().enumerate() {
                    let n = self.n.n('v', &callee.var_names[callee.params[k]]);
                    let t = self.ex(x, f, false, 0);
                    let short = matches!(*x.k, K::Var(_)) && t == n;
                    items.push((n, t, short));
                }
                let style = match style {
                    ArgStyle::Pos => ArgStyle::Pos,
                    ArgStyle::Named(p) => ArgStyle::Named((0..nc).chain(p.iter().map(|i| i + nc)).collect()),
                };
                let depth = callee.depth.map(|d| format!("({d})")).unwrap_or_default();
                format!("let {}{} = inst{depth} {}{};\n", self.pat(pat, f, ty), ann(*a, ty), self.n.n('f', &callee.name), self.args(items, &style))
            }
            St::Mem { id, elem, size, addr_w, init, writes } => {
                let ws: Vec<String> = writes
                    .iter()
                    .map(|(we, a, d)| format!("({}, {}, {})", self.ex(we, f, false, 0), self.ex(a, f, false, 0), self.ex(d, f, false, 0)))
                    .collect();
                let wt = format!("[(bool, uint<{addr_w}>, {}); {}]", self.ty(elem), writes.len());
                let clk = self.n.n('v', &f.clocks[0]);
                match init {
                    None => format!(
                        "let mw{id}_: {wt} = [{}];\nlet mem{id}_: Memory<{}, {size}> = inst std::mem::clocked_memory({clk}, mw{id}_);\n",
                        ws.join(", "),
                        self.ty(elem)
                    ),
                    Some(v) => format!(
                        "let mw{id}_: {wt} = [{}];\nlet mem{id}_: Memory<{}, {size}> = inst std::mem::clocked_memory_init({clk}, mw{id}_, [{}]);\n",
                        ws.join(", "),
                        self.ty(elem),
                        v.iter().map(|v| self.lit(elem, v, 0, false)).collect::<Vec<_>>().join(", ")
                    ),
                }
            }
            St::MemRead { var, ty, mem, addr } => format!(
                "let {}: {} = inst std::mem::read_memory(mem{mem}_, {});\n",
                self.n.n('v', &f.var_names[*var]),
                self.ty(ty),
                self.ex(addr, f, false, 0)
            ),
            St::Assert { cond, .. } => format!("assert {};\n", self.ex(cond, f, false, 0)),
        }
    }
    pub fn func(&self, i: usize) -> String {
        let f = &self.p.fns[i];
        let mut ps: Vec<String> = f.clocks.iter().map(|c| format!("{}: clock", self.n.n('v', c))).collect();
        for (k, v) in f.params.iter().enumerate() {
            if k == 0 && f.method_of.is_some() {
                ps.push("self".into());
            } else {
                ps.push(format!("{}: {}", self.n.n('v', &f.var_names[*v]), self.ty(&f.param_tys[k])));
            }
        }
        let kw = match (f.kind, f.depth) {
            (_, Some(d)) => format!("pipeline({d})"),
            (FnKind::Fn, _) => "fn".to_string(),
            (FnKind::Entity, _) => "entity".to_string(),
        };
        let ret = if f.ret == unit() { String::new() } else { format!(" -> {}", self.ty(&f.ret)) };
        let q = if self.n.qualify.is_empty() { "" } else { "pub " };
        let (name, body) = (
            if f.method_of.is_some() { self.n.n('m', &f.name) } else { self.n.n('f', &f.name) },
            self.block(&f.body.0, &f.body.1, f, false),
        );
        let t = format!("{}{q}{kw} {name}({}){ret} {body}\n", f.attrs, ps.join(", "));
        match f.method_of {
            Some(d) => format!("impl {} {{ {t} }}\n", self.n.n('t', &self.p.defs[d].name)),
            None => t,
        }
    }
    pub fn prog(&self) -> String {
        let mut s = String::new();
        for d in 0..self.p.defs.len() {
            s.push_str(&self.def(d));
        }
        for f in 0..self.p.fns.len() {
            s.push_str(&self.func(f));
        }
        s
    }
}
pub fn suffix(t: &Ty) -> String {
    match t {
        Ty::Int(n) => format!("i{n}"),
        Ty::UInt(n) => format!("u{n}"),
        _ => String::new(),
    }
}
/// would a literal of this value leave part of its type open even with suffixes?
fn needs_ann(t: &Ty, v: &Val) -> bool {
    match (t, v) {
        (Ty::Opt(_), Val::E(0, _)) => true,
        (Ty::Opt(t), Val::E(_, vs)) => needs_ann(t, &vs[0]),
        (Ty::Arr(_, 0), _) => true,
        (Ty::Arr(t, _), Val::T(vs)) => vs.iter().all(|v| needs_ann(t, v)),
        (Ty::Tup(ts), Val::T(vs)) => ts.iter().zip(vs).any(|(t, v)| needs_ann(t, v)),
        _ => false,
    }
}
