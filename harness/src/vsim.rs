//! Elaboration and four-state event-driven simulation of the parsed subset.
use crate::bv::{mask, Bv};
use crate::vparse::*;
use num::{BigInt, ToPrimitive, Zero};
use std::collections::{HashMap, VecDeque};

#[derive(Clone, Debug)]
pub enum CE {
    Const(Bv),
    Sig(usize),
    Ext(Box<CE>, usize, bool),
    Slice(Box<CE>, i64, usize),
    DynSlice(Box<CE>, Box<CE>, i64, usize),
    Mem(usize, Box<CE>, usize),
    Concat(Vec<CE>, usize),
    Repl(usize, Box<CE>, usize),
    Neg(Box<CE>),
    Inv(Box<CE>),
    LNot(Box<CE>),
    Red(u8, Box<CE>),
    Arith(&'static str, Box<CE>, Box<CE>, bool, usize),
    Shift(&'static str, Box<CE>, Box<CE>, bool, usize),
    Cmp(&'static str, Box<CE>, Box<CE>, bool),
    Logic(bool, Box<CE>, Box<CE>),
    Cond(Box<CE>, Box<CE>, Box<CE>),
}

#[derive(Clone, Debug)]
enum LV {
    Sig(usize, usize),
    Slice(usize, i64, usize),
    DynSlice(usize, CE, i64, usize),
    Mem(usize, CE, usize),
    Concat(Vec<LV>, usize),
}

impl LV {
    fn width(&self) -> usize {
        match self {
            LV::Sig(_, w) | LV::Slice(_, _, w) | LV::DynSlice(_, _, _, w) | LV::Mem(_, _, w) | LV::Concat(_, w) => *w,
        }
    }
}

#[derive(Clone, Debug)]
enum CS {
    Block(Vec<CS>),
    If(CE, Box<CS>, Option<Box<CS>>),
    Set(LV, CE, bool),
    Casez(CE, Vec<(CE, CS)>),
    Nop,
}

#[derive(Clone, Debug)]
enum Proc {
    Assign(LV, CE, usize),
    Comb(CS),
    Pos(Vec<CE>, CS),
}

#[derive(Clone, Debug)]
pub struct Sig {
    pub name: String,
    pub width: usize,
    pub scalar: bool,
}

pub struct Sim {
    pub sigs: Vec<Sig>,
    pub vals: Vec<Bv>,
    mems: Vec<Vec<Bv>>,
    procs: Vec<Proc>,
    sens: Vec<Vec<usize>>,
    edge_sens: Vec<Vec<usize>>,
    queue: VecDeque<usize>,
    inq: Vec<bool>,
    triggered: Vec<usize>,
    edge_prev: Vec<Vec<Option<bool>>>,
    drivers: HashMap<usize, Vec<Bv>>,
    pub asserts: Vec<(String, CE, Vec<String>)>,
    pub top_ports: Vec<Port>,
    top_syms: HashMap<String, usize>,
    pub steps: usize,
}

#[derive(Clone)]
enum Sym {
    Net(usize, usize, bool),
    Mem(usize, usize),
    Param(Bv),
}

type Scope = HashMap<String, Sym>;

struct Ctx<'a> {
    sim: Sim,
    design: &'a Design,
}

pub fn cmp4(op: &str, a: &Bv, b: &Bv, signed: bool) -> Option<bool> {
    match op {
        "==" | "!=" => {
            // definite difference?
            let known = (&a.b | &b.b) ^ mask(a.w.max(b.w));
            let diff = (&a.a ^ &b.a) & &known;
            let r = if !diff.is_zero() {
                Some(false)
            } else if a.known() && b.known() {
                Some(true)
            } else {
                None
            };
            if op == "==" { r } else { r.map(|x| !x) }
        }
        _ => {
            if !a.known() || !b.known() {
                return None;
            }
            let o = if signed { a.to_signed()?.cmp(&b.to_signed()?) } else { a.a.cmp(&b.a) };
            Some(match op {
                "<" => o.is_lt(),
                "<=" => o.is_le(),
                ">" => o.is_gt(),
                _ => o.is_ge(),
            })
        }
    }
}

impl Sim {
    pub fn eval(&self, e: &CE) -> Bv {
        match e {
            CE::Const(b) => b.clone(),
            CE::Sig(s) => self.vals[*s].clone(),
            CE::Ext(e, w, s) => self.eval(e).ext(*w, *s),
            CE::Slice(b, lo, w) => match &**b {
                CE::Sig(s) => self.vals[*s].slice(*lo, *w),
                b => self.eval(b).slice(*lo, *w),
            },
            CE::DynSlice(b, i, off, w) => {
                let i = self.eval(i);
                let b = self.eval(b);
                match i.to_uint().and_then(|x| x.to_i64()) {
                    Some(v) => b.slice(v + off, *w),
                    None => Bv::x(*w),
                }
            }
            CE::Mem(m, i, w) => {
                let i = self.eval(i);
                match i.to_uint().and_then(|x| x.to_usize()) {
                    Some(v) if v < self.mems[*m].len() => self.mems[*m][v].clone(),
                    _ => Bv::x(*w),
                }
            }
            CE::Concat(v, _) => {
                let mut r = Bv::zero(0);
                for x in v {
                    r = r.concat(&self.eval(x));
                }
                r
            }
            CE::Repl(n, e, _) => {
                let v = self.eval(e);
                let mut r = Bv::zero(0);
                for _ in 0..*n {
                    r = r.concat(&v);
                }
                r
            }
            CE::Neg(a) => {
                let a = self.eval(a);
                match a.to_uint() {
                    Some(v) => Bv::from_int(a.w, &-BigInt::from(v)),
                    None => Bv::x(a.w),
                }
            }
            CE::Inv(a) => {
                let a = self.eval(a);
                let m = mask(a.w);
                Bv { w: a.w, a: (&a.a ^ &m) | &a.b, b: a.b.clone() }
            }
            CE::LNot(a) => Bv::bit(self.eval(a).truth().map(|x| !x)),
            CE::Red(k, a) => {
                let a = self.eval(a);
                Bv::bit(match k {
                    b'|' => a.truth(),
                    b'&' => {
                        let zeros = (&a.a ^ mask(a.w)) & (&a.b ^ mask(a.w));
                        if !zeros.is_zero() {
                            Some(false)
                        } else if a.known() {
                            Some(true)
                        } else {
                            None
                        }
                    }
                    _ => a.to_uint().map(|v| v.count_ones() % 2 == 1),
                })
            }
            CE::Arith(op, a, b, signed, w) => {
                let (a, b) = (self.eval(a), self.eval(b));
                match *op {
                    "&" => {
                        // 0 dominates
                        let za = (&a.a ^ mask(*w)) & (&a.b ^ mask(*w));
                        let zb = (&b.a ^ mask(*w)) & (&b.b ^ mask(*w));
                        let z = za | zb;
                        let x = (&a.b | &b.b) & (&z ^ mask(*w));
                        let ones = &a.a & &b.a;
                        Bv { w: *w, a: (&ones & (&z ^ mask(*w))) | &x, b: x }
                    }
                    "|" => {
                        let oa = &a.a & (&a.b ^ mask(*w));
                        let ob = &b.a & (&b.b ^ mask(*w));
                        let o = oa | ob;
                        let x = (&a.b | &b.b) & (&o ^ mask(*w));
                        Bv { w: *w, a: o | &x, b: x }
                    }
                    "^" | "~^" | "^~" => {
                        let x = &a.b | &b.b;
                        let mut v = &a.a ^ &b.a;
                        if *op != "^" {
                            v ^= mask(*w);
                        }
                        Bv { w: *w, a: v | &x, b: x }
                    }
                    _ => {
                        if !a.known() || !b.known() {
                            return Bv::x(*w);
                        }
                        if *signed {
                            let (x, y) = (a.to_signed().unwrap(), b.to_signed().unwrap());
                            let r = match *op {
                                "+" => x + y,
                                "-" => x - y,
                                "*" => x * y,
                                "/" => {
                                    if y.is_zero() {
                                        return Bv::x(*w);
                                    }
                                    x / y
                                }
                                _ => {
                                    if y.is_zero() {
                                        return Bv::x(*w);
                                    }
                                    x % y
                                }
                            };
                            Bv::from_int(*w, &r)
                        } else {
                            let (x, y) = (&a.a, &b.a);
                            match *op {
                                "+" => Bv::from_uint(*w, &(x + y)),
                                "-" => Bv::from_int(*w, &(BigInt::from(x.clone()) - BigInt::from(y.clone()))),
                                "*" => Bv::from_uint(*w, &(x * y)),
                                "/" => {
                                    if y.is_zero() {
                                        Bv::x(*w)
                                    } else {
                                        Bv::from_uint(*w, &(x / y))
                                    }
                                }
                                _ => {
                                    if y.is_zero() {
                                        Bv::x(*w)
                                    } else {
                                        Bv::from_uint(*w, &(x % y))
                                    }
                                }
                            }
                        }
                    }
                }
            }
            CE::Shift(op, a, n, signed, w) => {
                let a = self.eval(a);
                let Some(n) = self.eval(n).to_uint() else { return Bv::x(*w) };
                let n = n.to_usize().unwrap_or(usize::MAX);
                match *op {
                    "<<" | "<<<" => {
                        if n >= *w {
                            Bv::zero(*w)
                        } else {
                            let m = mask(*w);
                            Bv { w: *w, a: (&a.a << n) & &m, b: (&a.b << n) & &m }
                        }
                    }
                    ">>>" if *signed => {
                        if *w == 0 {
                            return a;
                        }
                        let n = n.min(*w);
                        a.ext(*w + n, true).slice(n as i64, *w)
                    }
                    _ => {
                        if n >= *w {
                            Bv::zero(*w)
                        } else {
                            Bv { w: *w, a: &a.a >> n, b: &a.b >> n }
                        }
                    }
                }
            }
            CE::Cmp(op, a, b, s) => Bv::bit(cmp4(op, &self.eval(a), &self.eval(b), *s)),
            CE::Logic(and, a, b) => {
                let (a, b) = (self.eval(a).truth(), self.eval(b).truth());
                Bv::bit(if *and {
                    match (a, b) {
                        (Some(false), _) | (_, Some(false)) => Some(false),
                        (Some(true), Some(true)) => Some(true),
                        _ => None,
                    }
                } else {
                    match (a, b) {
                        (Some(true), _) | (_, Some(true)) => Some(true),
                        (Some(false), Some(false)) => Some(false),
                        _ => None,
                    }
                })
            }
            CE::Cond(c, a, b) => match self.eval(c).truth() {
                Some(true) => self.eval(a),
                Some(false) => self.eval(b),
                None => {
                    let (a, b) = (self.eval(a), self.eval(b));
                    let x = &a.b | &b.b | (&a.a ^ &b.a);
                    Bv { w: a.w, a: (&a.a & &b.a) | &x, b: x }
                }
            },
        }
    }
}

fn reads(e: &CE, out: &mut Vec<usize>) {
    match e {
        CE::Const(_) => {}
        CE::Sig(s) => out.push(*s),
        CE::Ext(a, ..) | CE::Slice(a, ..) | CE::Repl(_, a, _) | CE::Neg(a) | CE::Inv(a) | CE::LNot(a) | CE::Red(_, a) => {
            reads(a, out)
        }
        CE::Mem(m, i, _) => {
            out.push(usize::MAX - *m);
            reads(i, out)
        }
        CE::DynSlice(a, b, ..) | CE::Arith(_, a, b, ..) | CE::Shift(_, a, b, ..) | CE::Cmp(_, a, b, _) | CE::Logic(_, a, b) => {
            reads(a, out);
            reads(b, out)
        }
        CE::Concat(v, _) => v.iter().for_each(|x| reads(x, out)),
        CE::Cond(a, b, c) => {
            reads(a, out);
            reads(b, out);
            reads(c, out)
        }
    }
}
fn stmt_reads(s: &CS, out: &mut Vec<usize>) {
    match s {
        CS::Block(v) => v.iter().for_each(|x| stmt_reads(x, out)),
        CS::If(c, a, b) => {
            reads(c, out);
            stmt_reads(a, out);
            if let Some(b) = b {
                stmt_reads(b, out)
            }
        }
        CS::Set(l, e, _) => {
            lv_reads(l, out);
            reads(e, out)
        }
        CS::Casez(c, arms) => {
            reads(c, out);
            for (p, s) in arms {
                reads(p, out);
                stmt_reads(s, out)
            }
        }
        CS::Nop => {}
    }
}
fn lv_reads(l: &LV, out: &mut Vec<usize>) {
    match l {
        LV::DynSlice(_, e, ..) | LV::Mem(_, e, _) => reads(e, out),
        LV::Concat(v, _) => v.iter().for_each(|x| lv_reads(x, out)),
        _ => {}
    }
}

impl<'a> Ctx<'a> {
    fn add_sig(&mut self, name: String, width: usize, scalar: bool) -> usize {
        self.sim.sigs.push(Sig { name, width, scalar });
        self.sim.vals.push(Bv::x(width));
        self.sim.sigs.len() - 1
    }

    /// (self-determined width, signed)
    fn info(&self, e: &Expr, sc: &Scope) -> Result<(usize, bool), String> {
        Ok(match e {
            Expr::Lit { v, signed } => (v.w, *signed),
            Expr::Str(_) => return Err("string in hardware expression".into()),
            Expr::Id(n) => match sc.get(n) {
                Some(Sym::Net(_, w, _)) => (*w, false),
                Some(Sym::Param(v)) => (v.w, false),
                Some(Sym::Mem(..)) => return Err(format!("memory `{n}` used as a value")),
                None => return Err(format!("`{n}` is not declared")),
            },
            Expr::Index(b, _) => {
                if let Expr::Id(n) = &**b {
                    if let Some(Sym::Mem(m, _)) = sc.get(n) {
                        return Ok((self.sim.mems[*m].first().map(|x| x.w).unwrap_or(1), false));
                    }
                }
                (1, false)
            }
            Expr::Range(_, hi, lo) => {
                let (h, l) = (const_eval(hi).ok_or("dynamic range")?, const_eval(lo).ok_or("dynamic range")?);
                if h < l {
                    return Err(format!("reversed part select [{h}:{l}]"));
                }
                ((h - l + 1) as usize, false)
            }
            Expr::PlusRange(_, _, w) | Expr::MinusRange(_, _, w) => {
                let w = const_eval(w).ok_or("dynamic width")?;
                if w <= 0 {
                    return Err("empty part select".into());
                }
                (w as usize, false)
            }
            Expr::Concat(v) => {
                let mut w = 0;
                for x in v {
                    if let Expr::Lit { signed: true, .. } = x {
                        return Err("unsized literal in concatenation".into());
                    }
                    w += self.info(x, sc)?.0;
                }
                (w, false)
            }
            Expr::Repl(n, v) => {
                let n = const_eval(n).ok_or("dynamic replication")?;
                if n <= 0 {
                    return Err(format!("replication count {n}"));
                }
                let mut w = 0;
                for x in v {
                    w += self.info(x, sc)?.0;
                }
                (w * n as usize, false)
            }
            Expr::Un(op, a) => match *op {
                "-" | "~" | "+" => self.info(a, sc)?,
                _ => (1, false),
            },
            Expr::Bin(op, a, b) => match *op {
                "+" | "-" | "*" | "/" | "%" | "&" | "|" | "^" | "~^" | "^~" => {
                    let (x, y) = (self.info(a, sc)?, self.info(b, sc)?);
                    (x.0.max(y.0), x.1 && y.1)
                }
                "<<" | ">>" | "<<<" | ">>>" => self.info(a, sc)?,
                _ => (1, false),
            },
            Expr::Cond(_, a, b) => {
                let (x, y) = (self.info(a, sc)?, self.info(b, sc)?);
                (x.0.max(y.0), x.1 && y.1)
            }
            Expr::Signed(a, s) => (self.info(a, sc)?.0, *s),
        })
    }

    /// compile in a context of `w` bits
    fn comp(&self, e: &Expr, w: usize, signed: bool, sc: &Scope) -> Result<CE, String> {
        let wrap = |c: CE, sw: usize, s: bool| if sw == w { c } else { CE::Ext(Box::new(c), w, s) };
        Ok(match e {
            Expr::Lit { v, signed: ls } => CE::Const(
                // fill literals ('bx/'bz) extend
                v.ext(w, *ls && signed),
            ),
            Expr::Str(_) => return Err("string".into()),
            Expr::Id(n) => match sc.get(n) {
                Some(Sym::Net(s, sw, _)) => wrap(CE::Sig(*s), *sw, false),
                Some(Sym::Param(v)) => CE::Const(v.ext(w, false)),
                Some(Sym::Mem(..)) => return Err(format!("memory `{n}` used as a value")),
                None => return Err(format!("`{n}` is not declared")),
            },
            Expr::Index(b, i) => {
                if let Expr::Id(n) = &**b {
                    if let Some(Sym::Mem(m, mw)) = sc.get(n) {
                        return Ok(wrap(CE::Mem(*m, Box::new(self.comp_self(i, sc)?), *mw), *mw, false));
                    }
                }
                let base = self.select_base(b, sc)?;
                let c = match const_eval(i) {
                    Some(i) => CE::Slice(Box::new(base), i, 1),
                    None => CE::DynSlice(Box::new(base), Box::new(self.comp_self(i, sc)?), 0, 1),
                };
                wrap(c, 1, false)
            }
            Expr::Range(b, hi, lo) => {
                let (sw, _) = self.info(e, sc)?;
                let base = self.select_base(b, sc)?;
                let _ = hi;
                wrap(CE::Slice(Box::new(base), const_eval(lo).unwrap(), sw), sw, false)
            }
            Expr::PlusRange(b, i, _) => {
                let (sw, _) = self.info(e, sc)?;
                let base = self.select_base(b, sc)?;
                let c = match const_eval(i) {
                    Some(i) => CE::Slice(Box::new(base), i, sw),
                    None => CE::DynSlice(Box::new(base), Box::new(self.comp_self(i, sc)?), 0, sw),
                };
                wrap(c, sw, false)
            }
            Expr::MinusRange(b, i, _) => {
                let (sw, _) = self.info(e, sc)?;
                let base = self.select_base(b, sc)?;
                let off = -(sw as i64) + 1;
                let c = match const_eval(i) {
                    Some(i) => CE::Slice(Box::new(base), i + off, sw),
                    None => CE::DynSlice(Box::new(base), Box::new(self.comp_self(i, sc)?), off, sw),
                };
                wrap(c, sw, false)
            }
            Expr::Concat(v) => {
                let (sw, _) = self.info(e, sc)?;
                let c = CE::Concat(v.iter().map(|x| self.comp_self(x, sc)).collect::<Result<_, _>>()?, sw);
                wrap(c, sw, false)
            }
            Expr::Repl(n, v) => {
                let (sw, _) = self.info(e, sc)?;
                let parts = v.iter().map(|x| self.comp_self(x, sc)).collect::<Result<Vec<_>, _>>()?;
                let n = const_eval(n).unwrap() as usize;
                wrap(CE::Repl(n, Box::new(CE::Concat(parts, sw / n)), sw), sw, false)
            }
            Expr::Un(op, a) => match *op {
                "-" => CE::Neg(Box::new(self.comp(a, w, signed, sc)?)),
                "+" => self.comp(a, w, signed, sc)?,
                "~" => CE::Inv(Box::new(self.comp(a, w, signed, sc)?)),
                "!" => wrap(CE::LNot(Box::new(self.comp_self(a, sc)?)), 1, false),
                r => wrap(CE::Red(r.as_bytes()[0], Box::new(self.comp_self(a, sc)?)), 1, false),
            },
            Expr::Bin(op, a, b) => match *op {
                "+" | "-" | "*" | "/" | "%" | "&" | "|" | "^" | "~^" | "^~" => CE::Arith(
                    op,
                    Box::new(self.comp(a, w, signed, sc)?),
                    Box::new(self.comp(b, w, signed, sc)?),
                    signed,
                    w,
                ),
                "<<" | ">>" | "<<<" | ">>>" => {
                    CE::Shift(op, Box::new(self.comp(a, w, signed, sc)?), Box::new(self.comp_self(b, sc)?), signed, w)
                }
                "&&" | "||" => wrap(
                    CE::Logic(*op == "&&", Box::new(self.comp_self(a, sc)?), Box::new(self.comp_self(b, sc)?)),
                    1,
                    false,
                ),
                _ => {
                    let (x, y) = (self.info(a, sc)?, self.info(b, sc)?);
                    let cw = x.0.max(y.0);
                    let s = x.1 && y.1;
                    wrap(
                        CE::Cmp(op, Box::new(self.comp(a, cw, s, sc)?), Box::new(self.comp(b, cw, s, sc)?), s),
                        1,
                        false,
                    )
                }
            },
            Expr::Cond(c, a, b) => CE::Cond(
                Box::new(self.comp_self(c, sc)?),
                Box::new(self.comp(a, w, signed, sc)?),
                Box::new(self.comp(b, w, signed, sc)?),
            ),
            Expr::Signed(a, _) => {
                let (sw, _) = self.info(a, sc)?;
                wrap(self.comp_self(a, sc)?, sw, signed)
            }
        })
    }
    fn comp_self(&self, e: &Expr, sc: &Scope) -> Result<CE, String> {
        let (w, s) = self.info(e, sc)?;
        self.comp(e, w, s, sc)
    }
    /// as the right hand side of an assignment to `lw` bits, result exactly `lw` bits
    fn comp_rhs(&self, e: &Expr, lw: usize, sc: &Scope) -> Result<CE, String> {
        let (w, s) = self.info(e, sc)?;
        let cw = w.max(lw);
        let c = self.comp(e, cw, s, sc)?;
        Ok(if cw == lw { c } else { CE::Slice(Box::new(c), 0, lw) })
    }
    fn select_base(&self, b: &Expr, sc: &Scope) -> Result<CE, String> {
        if let Expr::Id(n) = b {
            match sc.get(n) {
                Some(Sym::Net(s, _, scalar)) => {
                    if *scalar {
                        return Err(format!("bit select of the scalar `{n}`"));
                    }
                    return Ok(CE::Sig(*s));
                }
                Some(Sym::Param(v)) => return Ok(CE::Const(v.clone())),
                Some(Sym::Mem(..)) => return Err(format!("part select of the memory `{n}`")),
                None => return Err(format!("`{n}` is not declared")),
            }
        }
        if let Expr::Index(..) = b {
            return self.comp_self(b, sc);
        }
        Err("select of a non-name".into())
    }
    fn lval(&self, e: &Expr, sc: &Scope) -> Result<LV, String> {
        let net = |b: &Expr| -> Result<(usize, usize, bool), String> {
            match b {
                Expr::Id(n) => match sc.get(n) {
                    Some(Sym::Net(s, w, scalar)) => Ok((*s, *w, *scalar)),
                    Some(Sym::Param(_)) => Err(format!("assignment to the constant `{n}`")),
                    Some(Sym::Mem(..)) => Err(format!("assignment to the memory `{n}`")),
                    None => Err(format!("`{n}` is not declared")),
                },
                _ => Err("bad assignment target".into()),
            }
        };
        Ok(match e {
            Expr::Id(_) => {
                let (s, w, _) = net(e)?;
                LV::Sig(s, w)
            }
            Expr::Index(b, i) => {
                if let Expr::Id(n) = &**b {
                    if let Some(Sym::Mem(m, w)) = sc.get(n) {
                        return Ok(LV::Mem(*m, self.comp_self(i, sc)?, *w));
                    }
                }
                let (s, _, scalar) = net(b)?;
                if scalar {
                    return Err("bit select of a scalar target".into());
                }
                match const_eval(i) {
                    Some(i) => LV::Slice(s, i, 1),
                    None => match self.comp_self(i, sc)? {
                        CE::Const(c) if c.known() => LV::Slice(s, c.to_u64().unwrap() as i64, 1),
                        ce => LV::DynSlice(s, ce, 0, 1),
                    },
                }
            }
            Expr::Range(b, _, lo) => {
                let (w, _) = self.info(e, sc)?;
                let (s, _, scalar) = net(b)?;
                if scalar {
                    return Err("part select of a scalar target".into());
                }
                LV::Slice(s, const_eval(lo).unwrap(), w)
            }
            Expr::PlusRange(b, i, _) => {
                let (w, _) = self.info(e, sc)?;
                let (s, _, scalar) = net(b)?;
                if scalar {
                    return Err("part select of a scalar target".into());
                }
                match const_eval(i) {
                    Some(i) => LV::Slice(s, i, w),
                    None => LV::DynSlice(s, self.comp_self(i, sc)?, 0, w),
                }
            }
            Expr::MinusRange(b, i, _) => {
                let (w, _) = self.info(e, sc)?;
                let (s, _, scalar) = net(b)?;
                if scalar {
                    return Err("part select of a scalar target".into());
                }
                let off = -(w as i64) + 1;
                match const_eval(i) {
                    Some(i) => LV::Slice(s, i + off, w),
                    None => LV::DynSlice(s, self.comp_self(i, sc)?, off, w),
                }
            }
            Expr::Concat(v) => {
                let l = v.iter().map(|x| self.lval(x, sc)).collect::<Result<Vec<_>, _>>()?;
                let w = l.iter().map(|x| x.width()).sum();
                LV::Concat(l, w)
            }
            _ => return Err("bad assignment target".into()),
        })
    }
    fn stmt(&self, s: &Stmt, sc: &Scope, asserts: &mut Vec<(CE, Vec<String>)>) -> Result<CS, String> {
        Ok(match s {
            Stmt::Block(v) => CS::Block(v.iter().map(|x| self.stmt(x, sc, asserts)).collect::<Result<_, _>>()?),
            Stmt::If(c, a, b) => CS::If(
                self.comp_self(c, sc)?,
                Box::new(self.stmt(a, sc, asserts)?),
                match b {
                    Some(b) => Some(Box::new(self.stmt(b, sc, asserts)?)),
                    None => None,
                },
            ),
            Stmt::Blocking(l, r) | Stmt::Nonblocking(l, r) => {
                let l = self.lval(l, sc)?;
                let r = self.comp_rhs(r, l.width(), sc)?;
                CS::Set(l, r, matches!(s, Stmt::Nonblocking(..)))
            }
            Stmt::Casez(c, arms) => {
                let mut w = self.info(c, sc)?.0;
                for (p, _) in arms {
                    w = w.max(self.info(p, sc)?.0);
                }
                CS::Casez(
                    self.comp(c, w, false, sc)?,
                    arms.iter()
                        .map(|(p, s)| Ok((self.comp(p, w, false, sc)?, self.stmt(s, sc, asserts)?)))
                        .collect::<Result<_, String>>()?,
                )
            }
            Stmt::Assert(c, shown) => {
                asserts.push((self.comp_self(c, sc)?, shown.clone()));
                CS::Nop
            }
            Stmt::Delay0 | Stmt::Nop => CS::Nop,
        })
    }

    fn add_proc(&mut self, p: Proc) {
        self.sim.procs.push(p);
    }

    fn elaborate(
        &mut self,
        m: &'a Module,
        prefix: &str,
        bound: &HashMap<String, usize>,
        depth: usize,
        overrides: &HashMap<String, Bv>,
    ) -> Result<HashMap<String, usize>, String> {
        if depth > 64 {
            return Err("module hierarchy too deep (recursive instantiation)".into());
        }
        let mut sc: Scope = HashMap::new();
        let mut ports = HashMap::new();
        let in_mod = |e: String| format!("module `{}`: {e}", m.name);
        for p in &m.ports {
            let id = match bound.get(&p.name) {
                Some(id) => *id,
                None => self.add_sig(format!("{prefix}{}", p.name), p.width, p.scalar),
            };
            if sc.insert(p.name.clone(), Sym::Net(id, p.width, p.scalar)).is_some() {
                return Err(in_mod(format!("port `{}` is declared twice", p.name)));
            }
            ports.insert(p.name.clone(), id);
        }
        for it in &m.items {
            match it {
                Item::Net { name, width, scalar, mem, .. } => {
                    let sym = match mem {
                        Some(n) => {
                            self.sim.mems.push(vec![Bv::x(*width); *n]);
                            Sym::Mem(self.sim.mems.len() - 1, *width)
                        }
                        None => {
                            let id = self.add_sig(format!("{prefix}{name}"), *width, *scalar);
                            Sym::Net(id, *width, *scalar)
                        }
                    };
                    if sc.insert(name.clone(), sym).is_some() {
                        return Err(in_mod(format!("`{name}` is declared twice")));
                    }
                }
                Item::Param { name, width, value } => {
                    let v = match overrides.get(name) {
                        Some(v) => v.clone(),
                        None => {
                            if let Expr::Str(_) = value {
                                Bv::x(*width)
                            } else {
                                let (w, s) = self.info(value, &sc).map_err(in_mod)?;
                                let c = self.comp(value, w.max(*width), s, &sc).map_err(in_mod)?;
                                // fill with x/z for unsized based literals
                                self.sim.eval(&c).slice(0, *width)
                            }
                        }
                    };
                    if sc.insert(name.clone(), Sym::Param(v)).is_some() {
                        return Err(in_mod(format!("`{name}` is declared twice")));
                    }
                }
                _ => {}
            }
        }
        for it in &m.items {
            match it {
                Item::Net { .. } | Item::Param { .. } => {}
                Item::Assign(l, r) => {
                    let l = self.lval(l, &sc).map_err(in_mod)?;
                    let r = self.comp_rhs(r, l.width(), &sc).map_err(in_mod)?;
                    self.add_proc(Proc::Assign(l, r, 0));
                }
                Item::Initial(s) => {
                    let s = self.stmt(s, &sc, &mut vec![]).map_err(in_mod)?;
                    let mut nba = vec![];
                    self.sim.exec(&s, &mut nba);
                }
                Item::AlwaysComb(s) => {
                    let s = self.stmt(s, &sc, &mut vec![]).map_err(in_mod)?;
                    self.add_proc(Proc::Comb(s));
                }
                Item::AlwaysPos(e, s) => {
                    let e = e.iter().map(|e| self.comp_self(e, &sc)).collect::<Result<Vec<_>, _>>().map_err(in_mod)?;
                    let s = self.stmt(s, &sc, &mut vec![]).map_err(in_mod)?;
                    self.add_proc(Proc::Pos(e, s));
                }
                Item::AlwaysOn(on, s) => {
                    let mut a = vec![];
                    let mut all = vec![s];
                    while let Some(s) = all.pop() {
                        match s {
                            Stmt::Block(v) => all.extend(v),
                            Stmt::Assert(c, _) if format!("{c:?}") != format!("{on:?}") => return Err(in_mod("an assertion is not evaluated when its condition changes".into())),
                            _ => {}
                        }
                    }
                    self.stmt(s, &sc, &mut a).map_err(in_mod)?;
                    for (c, shown) in a {
                        self.sim.asserts.push((format!("{prefix}{}", m.name), c, shown));
                    }
                }
                Item::Inst { module, name, params, conns } => {
                    let Some(sub) = self.design.get(module) else {
                        return Err(in_mod(format!("instance of the unknown module `{module}`")));
                    };
                    let mut bnd = HashMap::new();
                    for (p, e) in conns {
                        if let Some(port) = sub.ports.iter().find(|x| &x.name == p) {
                            if port.dir == Dir::InOut {
                                if let Expr::Id(n) = e {
                                    if let Some(Sym::Net(s, ..)) = sc.get(n) {
                                        bnd.insert(p.clone(), *s);
                                        continue;
                                    }
                                }
                                return Err(in_mod("inout port connected to an expression".into()));
                            }
                        } else {
                            return Err(in_mod(format!("`{module}` has no port `{p}`")));
                        }
                    }
                    let mut ov = HashMap::new();
                    for (n, e) in params {
                        let c = self.comp_self(e, &sc).map_err(in_mod)?;
                        ov.insert(n.clone(), self.sim.eval(&c));
                    }
                    let formal = self.elaborate(sub, &format!("{prefix}{name}."), &bnd, depth + 1, &ov)?;
                    for (p, e) in conns {
                        let port = sub.ports.iter().find(|x| &x.name == p).unwrap();
                        let fid = formal[p];
                        match port.dir {
                            Dir::In => {
                                let r = self.comp_rhs(e, port.width, &sc).map_err(in_mod)?;
                                self.add_proc(Proc::Assign(LV::Sig(fid, port.width), r, 0));
                            }
                            Dir::Out => {
                                let l = self.lval(e, &sc).map_err(in_mod)?;
                                let lw = l.width();
                                let mut r = CE::Sig(fid);
                                if lw > port.width {
                                    r = CE::Ext(Box::new(r), lw, false);
                                } else if lw < port.width {
                                    r = CE::Slice(Box::new(r), 0, lw);
                                }
                                self.add_proc(Proc::Assign(l, r, 0));
                            }
                            Dir::InOut => {}
                        }
                    }
                }
            }
        }
        Ok(ports)
    }
}

impl Sim {
    pub fn new(design: &Design, top: &str) -> Result<Sim, String> {
        let Some(m) = design.get(top) else { return Err(format!("no module named `{top}`")) };
        let sim = Sim {
            sigs: vec![],
            vals: vec![],
            mems: vec![],
            procs: vec![],
            sens: vec![],
            edge_sens: vec![],
            queue: VecDeque::new(),
            inq: vec![],
            triggered: vec![],
            edge_prev: vec![],
            drivers: HashMap::new(),
            asserts: vec![],
            top_ports: m.ports.clone(),
            top_syms: HashMap::new(),
            steps: 0,
        };
        let mut cx = Ctx { sim, design };
        let syms = cx.elaborate(m, "", &HashMap::new(), 0, &HashMap::new())?;
        let mut sim = cx.sim;
        sim.top_syms = syms;
        // nets with several drivers (inout) get resolution
        for p in m.ports.iter().filter(|p| p.dir == Dir::InOut) {
            let id = sim.top_syms[&p.name];
            sim.drivers.insert(id, vec![Bv::z(p.width)]);
        }
        for i in 0..sim.procs.len() {
            if let Proc::Assign(l, _, _) = &sim.procs[i] {
                let t = match l {
                    LV::Sig(s, _) | LV::Slice(s, ..) | LV::DynSlice(s, ..) => Some(*s),
                    _ => None,
                };
                if let Some(t) = t {
                    if let Some(d) = sim.drivers.get_mut(&t) {
                        let w = sim.sigs[t].width;
                        d.push(Bv::z(w));
                        let slot = d.len() - 1;
                        if let Proc::Assign(_, _, k) = &mut sim.procs[i] {
                            *k = slot;
                        }
                    }
                }
            }
        }
        let n = sim.sigs.len();
        let nm = sim.mems.len();
        sim.sens = vec![vec![]; n + nm];
        sim.edge_sens = vec![vec![]; n + nm];
        sim.inq = vec![false; sim.procs.len()];
        sim.edge_prev = vec![vec![]; sim.procs.len()];
        for i in 0..sim.procs.len() {
            let mut r = vec![];
            let mut edge = false;
            match &sim.procs[i] {
                Proc::Assign(l, e, _) => {
                    lv_reads(l, &mut r);
                    reads(e, &mut r);
                }
                Proc::Comb(s) => stmt_reads(s, &mut r),
                Proc::Pos(e, _) => {
                    edge = true;
                    e.iter().for_each(|e| reads(e, &mut r));
                }
            }
            r.sort();
            r.dedup();
            for s in r {
                let s = if s >= usize::MAX / 2 { n + (usize::MAX - s) } else { s };
                if edge {
                    sim.edge_sens[s].push(i);
                } else {
                    sim.sens[s].push(i);
                }
            }
            if edge {
                let Proc::Pos(e, _) = &sim.procs[i] else { unreachable!() };
                let prev = e.iter().map(|e| sim.eval(e).get(0)).collect();
                sim.edge_prev[i] = prev;
            } else {
                sim.queue.push_back(i);
                sim.inq[i] = true;
            }
        }
        Ok(sim)
    }

    fn changed(&mut self, s: usize) {
        for k in 0..self.sens[s].len() {
            let p = self.sens[s][k];
            if !self.inq[p] {
                self.inq[p] = true;
                self.queue.push_back(p);
            }
        }
        for k in 0..self.edge_sens[s].len() {
            let p = self.edge_sens[s][k];
            let Proc::Pos(e, _) = &self.procs[p] else { unreachable!() };
            let mut fire = false;
            let now: Vec<_> = e.iter().map(|e| self.eval(e).get(0)).collect();
            for (a, b) in self.edge_prev[p].iter().zip(&now) {
                // posedge: 0->1, 0->x, x->1
                fire |= match (a, b) {
                    (Some(false), Some(true)) | (None, Some(true)) | (Some(false), None) => true,
                    _ => false,
                };
            }
            self.edge_prev[p] = now;
            if fire && !self.triggered.contains(&p) {
                self.triggered.push(p);
            }
        }
    }

    fn write_sig(&mut self, s: usize, v: Bv) {
        if self.vals.len() > s && self.vals[s] != v {
            self.vals[s] = v;
            if !self.sens.is_empty() {
                self.changed(s);
            }
        }
    }

    fn write(&mut self, l: &LV, v: Bv, slot: usize) {
        match l {
            LV::Sig(s, w) => {
                debug_assert_eq!(v.w, *w);
                self.drive(*s, 0, v, slot)
            }
            LV::Slice(s, lo, _) => self.drive(*s, *lo, v, slot),
            LV::DynSlice(s, i, off, _) => {
                if let Some(i) = self.eval(i).to_uint().and_then(|x| x.to_i64()) {
                    self.drive(*s, i + off, v, slot)
                }
            }
            LV::Mem(m, i, _) => {
                let m = *m;
                if let Some(i) = self.eval(i).to_uint().and_then(|x| x.to_usize()) {
                    if i < self.mems[m].len() && self.mems[m][i] != v {
                        self.mems[m][i] = v;
                        if !self.sens.is_empty() {
                            let n = self.sigs.len();
                            self.changed(n + m);
                        }
                    }
                }
            }
            LV::Concat(parts, w) => {
                let mut hi = *w;
                for p in parts {
                    let pw = p.width();
                    hi -= pw;
                    self.write(p, v.slice(hi as i64, pw), slot);
                }
            }
        }
    }

    fn drive(&mut self, s: usize, lo: i64, v: Bv, slot: usize) {
        let whole = lo == 0 && v.w == self.sigs[s].width;
        if let Some(d) = self.drivers.get_mut(&s) {
            if whole {
                d[slot] = v;
            } else {
                d[slot].set_slice(lo, &v);
            }
            let w = self.sigs[s].width;
            let mut r = Bv::z(w);
            for x in d.iter() {
                for i in 0..w {
                    let (xa, xb) = (x.a.bit(i as u64), x.b.bit(i as u64));
                    let (ra, rb) = (r.a.bit(i as u64), r.b.bit(i as u64));
                    let (na, nb) = if (xa, xb) == (false, true) {
                        (ra, rb)
                    } else if (ra, rb) == (false, true) {
                        (xa, xb)
                    } else if (xa, xb) == (ra, rb) {
                        (xa, xb)
                    } else {
                        (true, true)
                    };
                    r.a.set_bit(i as u64, na);
                    r.b.set_bit(i as u64, nb);
                }
            }
            self.write_sig(s, r);
            return;
        }
        if whole {
            self.write_sig(s, v);
        } else {
            let mut n = self.vals[s].clone();
            n.set_slice(lo, &v);
            self.write_sig(s, n);
        }
    }

    fn exec(&mut self, s: &CS, nba: &mut Vec<(LV, Bv)>) {
        match s {
            CS::Block(v) => v.iter().for_each(|x| self.exec(x, nba)),
            CS::If(c, a, b) => {
                if self.eval(c).truth() == Some(true) {
                    self.exec(a, nba)
                } else if let Some(b) = b {
                    self.exec(b, nba)
                }
            }
            CS::Set(l, e, nb) => {
                let v = self.eval(e);
                if *nb {
                    // freeze dynamic indices now
                    let l = self.freeze(l);
                    nba.push((l, v));
                } else {
                    self.write(l, v, 0);
                }
            }
            CS::Casez(c, arms) => {
                let c = self.eval(c);
                for (p, s) in arms {
                    let p = self.eval(p);
                    // z in either is a wildcard
                    let cz = &c.b & (&c.a ^ mask(c.w));
                    let pz = &p.b & (&p.a ^ mask(p.w));
                    let care = (cz | pz) ^ mask(c.w);
                    if (((&c.a ^ &p.a) | (&c.b ^ &p.b)) & care).is_zero() {
                        self.exec(s, nba);
                        return;
                    }
                }
            }
            CS::Nop => {}
        }
    }
    fn freeze(&self, l: &LV) -> LV {
        match l {
            LV::DynSlice(s, e, o, w) => LV::DynSlice(*s, CE::Const(self.eval(e)), *o, *w),
            LV::Mem(m, e, w) => LV::Mem(*m, CE::Const(self.eval(e)), *w),
            LV::Concat(v, w) => LV::Concat(v.iter().map(|x| self.freeze(x)).collect(), *w),
            l => l.clone(),
        }
    }

    pub fn settle(&mut self) -> Result<(), String> {
        let mut rounds = 0usize;
        let limit = 200 * (self.procs.len() + 10);
        loop {
            while let Some(p) = self.queue.pop_front() {
                self.inq[p] = false;
                self.steps += 1;
                rounds += 1;
                if rounds > limit {
                    return Err("combinational loop: the design does not settle".into());
                }
                let proc = std::mem::replace(&mut self.procs[p], Proc::Comb(CS::Nop));
                match &proc {
                    Proc::Assign(l, e, slot) => {
                        let v = self.eval(e);
                        self.write(l, v, *slot);
                    }
                    Proc::Comb(s) => {
                        let mut nba = vec![];
                        self.exec(s, &mut nba);
                    }
                    Proc::Pos(..) => unreachable!(),
                }
                self.procs[p] = proc;
            }
            if self.triggered.is_empty() {
                return Ok(());
            }
            let mut nba = vec![];
            for p in std::mem::take(&mut self.triggered) {
                let proc = std::mem::replace(&mut self.procs[p], Proc::Comb(CS::Nop));
                if let Proc::Pos(_, s) = &proc {
                    self.exec(s, &mut nba);
                }
                self.procs[p] = proc;
            }
            for (l, v) in nba {
                self.write(&l, v, 0);
            }
        }
    }

    pub fn port(&self, name: &str) -> Option<&Port> {
        self.top_ports.iter().find(|p| p.name == name)
    }
    pub fn set(&mut self, port: &str, v: Bv) -> Result<(), String> {
        let Some(id) = self.top_syms.get(port).copied() else { return Err(format!("no port `{port}`")) };
        if self.sigs[id].width != v.w {
            return Err(format!("port `{port}` is {} bits wide, expected {}", self.sigs[id].width, v.w));
        }
        if let Some(d) = self.drivers.get_mut(&id) {
            d[0] = v;
            let d0 = d[0].clone();
            self.drive(id, 0, d0, 0);
        } else {
            self.write_sig(id, v);
        }
        Ok(())
    }
    pub fn get(&self, port: &str) -> Result<Bv, String> {
        let Some(id) = self.top_syms.get(port).copied() else { return Err(format!("no port `{port}`")) };
        Ok(self.vals[id].clone())
    }
    /// internal signal by hierarchical name
    pub fn peek(&self, name: &str) -> Option<Bv> {
        self.sigs.iter().position(|s| s.name == name).map(|i| self.vals[i].clone())
    }
    /// one full clock cycle of `clk`: falls, then rises
    pub fn tick(&mut self, clk: &str) -> Result<(), String> {
        self.set(clk, Bv::zero(1))?;
        self.settle()?;
        self.set(clk, Bv::from_u64(1, 1))?;
        self.settle()
    }
    pub fn failing_asserts(&self) -> Vec<(String, bool)> {
        // (where, definite)
        self.asserts
            .iter()
            .filter_map(|(n, c, _)| match self.eval(c).truth() {
                Some(true) => None,
                Some(false) => Some((n.clone(), true)),
                None => Some((n.clone(), false)),
            })
            .collect()
    }
    pub fn assert_values(&self) -> Vec<Option<bool>> {
        self.asserts.iter().map(|(_, c, _)| self.eval(c).truth()).collect()
    }
}
