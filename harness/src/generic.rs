//! Generic programs (type, integer and truth-value parameters, bounds, traits, impls, lambdas as arguments) with a
//! reference semantics that evaluates a generic body under an explicit binding of its parameters.
use crate::lang::{self, bin, int_w, val_eq, wrap, Def, DefKind, Op, Prog, Ty, Val};
use crate::tape::Gen;
use num::{BigInt, ToPrimitive};
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;

/// linear expression over integer parameters
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct W {
    pub c: i64,
    pub t: Vec<(usize, i64)>,
}
impl W {
    pub fn c(c: i64) -> W {
        W { c, t: vec![] }
    }
    pub fn p(k: usize) -> W {
        W { c: 0, t: vec![(k, 1)] }
    }
    pub fn add(&self, o: &W) -> W {
        let mut m: std::collections::BTreeMap<usize, i64> = self.t.iter().cloned().collect();
        for (k, v) in &o.t {
            *m.entry(*k).or_default() += v;
        }
        W { c: self.c + o.c, t: m.into_iter().filter(|x| x.1 != 0).collect() }
    }
    pub fn is_c(&self) -> bool {
        self.t.is_empty()
    }
    pub fn single(&self) -> Option<usize> {
        (self.c == 0 && self.t.len() == 1 && self.t[0].1 == 1).then(|| self.t[0].0)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Bool,
    Int(W),
    UInt(W),
    Tup(Vec<T>),
    Arr(Box<T>, W),
    P(usize),
    G(usize, Vec<Arg>),
    Slf,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Bx {
    C(bool),
    P(usize),
    Not(Box<Bx>),
    Op(&'static str, Box<Bx>, Box<Bx>),
    Cmp(&'static str, W, W),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Arg {
    T(T),
    W(W),
    B(Bx),
}
pub type Bound = (usize, Vec<Arg>);
#[derive(Clone, Debug)]
pub enum PK {
    T(Vec<Bound>, bool), // bounds; also PartialEq
    U(i64),
    B,
}
#[derive(Clone, Debug)]
pub struct Param {
    pub name: String,
    pub k: PK,
}
#[derive(Clone, Debug)]
pub enum PTy {
    V(T),
    F(Vec<T>, T),
}
#[derive(Clone, Debug)]
pub struct Sig {
    pub ps: Vec<(String, PTy)>,
    pub ret: T,
}
#[derive(Clone, Debug)]
pub struct Unit {
    pub name: String,
    pub gp: Vec<Param>,
    /// how many of `gp` belong to the impl block
    pub outer: usize,
    pub sig: Sig,
    pub has_self: bool,
    pub body: E,
    pub inline: bool,
    pub where_: bool,
    pub turbo_ok: bool,
    pub impl_: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct Trait {
    pub name: String,
    pub nargs: usize,
    pub methods: Vec<(String, bool, Sig)>,
}
#[derive(Clone, Debug)]
pub struct Impl {
    pub tr: Option<Bound>,
    pub gp: Vec<Param>,
    pub target: T,
    pub methods: Vec<usize>,
    pub where_: bool,
}
#[derive(Clone, Debug)]
pub struct GDef {
    pub name: String,
    pub gp: Vec<Param>,
    pub variants: Vec<(String, Vec<(String, T)>)>,
    pub is_struct: bool,
}
#[derive(Clone, Debug)]
pub struct E {
    pub ty: T,
    pub k: Box<K>,
}
#[derive(Clone, Debug)]
pub enum M {
    Unit(usize),
    Trait(Bound, usize),
}
#[derive(Clone, Debug)]
pub enum K {
    Var(String),
    B(bool),
    I(BigInt, u8),
    /// integer parameter (or expression) as a value
    N(W),
    /// truth-value parameter
    PB(usize),
    Op(Op, E, E),
    Ext(&'static str, E),
    Tup(Vec<E>),
    TupIdx(E, usize),
    Arr(Vec<E>),
    Rep(E),
    Idx0(E),
    Ctor(usize, Vec<E>),
    Field(E, usize),
    Match(E, Vec<(Option<usize>, Vec<String>, E)>),
    If(E, E, E),
    GenIf(Bx, E, E),
    Let(Vec<(String, E)>, E),
    Call(usize, Vec<Arg>, bool, Vec<E>),
    MCall(M, T, Vec<Arg>, bool, Vec<E>),
    Assoc(Bound, usize, T, Vec<E>),
    Lam(Vec<(String, T)>, E),
    LCall(String, Vec<E>),
}
fn e(ty: &T, k: K) -> E {
    E { ty: ty.clone(), k: Box::new(k) }
}

#[derive(Default)]
pub struct GP {
    pub defs: Vec<GDef>,
    pub units: Vec<Unit>,
    pub traits: Vec<Trait>,
    pub impls: Vec<Impl>,
    /// print order: 'd' def, 't' trait, 'i' impl, 'u' free unit
    pub order: Vec<(char, usize)>,
    pub top: usize,
}

// ------------------------------------------------------------------------------------ substitution
pub fn sw(w: &W, a: &[Arg]) -> W {
    let mut r = W::c(w.c);
    for (k, v) in &w.t {
        let Arg::W(x) = &a[*k] else { panic!("kind of parameter {k} {a:?}") };
        for _ in 0..v.abs() {
            r = r.add(&if *v > 0 { x.clone() } else { W { c: -x.c, t: x.t.iter().map(|(k, v)| (*k, -v)).collect() } });
        }
    }
    r
}
pub fn st(t: &T, a: &[Arg], slf: Option<&T>) -> T {
    match t {
        T::Bool => T::Bool,
        T::Int(w) => T::Int(sw(w, a)),
        T::UInt(w) => T::UInt(sw(w, a)),
        T::Tup(v) => T::Tup(v.iter().map(|t| st(t, a, slf)).collect()),
        T::Arr(t, w) => T::Arr(Box::new(st(t, a, slf)), sw(w, a)),
        T::P(k) => match &a[*k] {
            Arg::T(t) => t.clone(),
            x => panic!("{x:?}"),
        },
        T::G(d, v) => T::G(*d, v.iter().map(|x| sa(x, a, slf)).collect()),
        T::Slf => slf.expect("Self").clone(),
    }
}
pub fn sb(b: &Bx, a: &[Arg]) -> Bx {
    match b {
        Bx::C(b) => Bx::C(*b),
        Bx::P(k) => match &a[*k] {
            Arg::B(b) => b.clone(),
            x => panic!("{x:?}"),
        },
        Bx::Not(x) => Bx::Not(Box::new(sb(x, a))),
        Bx::Op(o, x, y) => Bx::Op(o, Box::new(sb(x, a)), Box::new(sb(y, a))),
        Bx::Cmp(o, x, y) => Bx::Cmp(o, sw(x, a), sw(y, a)),
    }
}
pub fn sa(x: &Arg, a: &[Arg], slf: Option<&T>) -> Arg {
    match x {
        Arg::T(t) => Arg::T(st(t, a, slf)),
        Arg::W(w) => Arg::W(sw(w, a)),
        Arg::B(b) => Arg::B(sb(b, a)),
    }
}
pub fn bval(b: &Bx) -> bool {
    match b {
        Bx::C(b) => *b,
        Bx::P(_) => panic!("open"),
        Bx::Not(x) => !bval(x),
        Bx::Op(o, x, y) => match *o {
            "&&" => bval(x) && bval(y),
            "||" => bval(x) || bval(y),
            _ => bval(x) ^ bval(y),
        },
        Bx::Cmp(o, x, y) => {
            assert!(x.is_c() && y.is_c());
            let (x, y) = (x.c, y.c);
            match *o {
                "==" => x == y,
                "!=" => x != y,
                "<" => x < y,
                "<=" => x <= y,
                ">" => x > y,
                _ => x >= y,
            }
        }
    }
}
/// match `pat` (with parameters) against `t`, extending `b`
pub fn unify(pat: &T, t: &T, b: &mut Vec<Option<Arg>>) -> bool {
    fn w(p: &W, x: &W, b: &mut Vec<Option<Arg>>) -> bool {
        if let Some(k) = p.single() {
            let n = Arg::W(x.clone());
            return match &b[k] {
                None => {
                    b[k] = Some(n);
                    true
                }
                Some(o) => *o == n,
            };
        }
        if p.is_c() {
            return p == x;
        }
        // a + k with everything else bound
        if p.t.iter().all(|(k, _)| b[*k].is_some()) {
            let full: Vec<Arg> = b.iter().map(|x| x.clone().unwrap_or(Arg::B(Bx::C(false)))).collect();
            return sw(p, &full) == *x;
        }
        if p.t.len() == 1 && p.t[0].1 == 1 {
            let r = x.add(&W::c(-p.c));
            if r.is_c() && r.c < 1 {
                return false;
            }
            if !r.is_c() && (r.c < 0 || r.t.iter().any(|t| t.1 < 0)) {
                return false;
            }
            b[p.t[0].0] = Some(Arg::W(r));
            return true;
        }
        false
    }
    match (pat, t) {
        (T::P(k), t) => match &b[*k] {
            None => {
                b[*k] = Some(Arg::T(t.clone()));
                true
            }
            Some(o) => *o == Arg::T(t.clone()),
        },
        (T::Bool, T::Bool) => true,
        (T::Int(x), T::Int(y)) | (T::UInt(x), T::UInt(y)) => w(x, y, b),
        (T::Tup(x), T::Tup(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| unify(x, y, b)),
        (T::Arr(x, n), T::Arr(y, m)) => unify(x, y, b) && w(n, m, b),
        (T::G(d, x), T::G(c, y)) => {
            d == c
                && x.iter().zip(y).all(|(x, y)| match (x, y) {
                    (Arg::T(x), Arg::T(y)) => unify(x, y, b),
                    (Arg::W(x), Arg::W(y)) => w(x, y, b),
                    (Arg::B(x), Arg::B(y)) => x == y,
                    _ => false,
                })
        }
        _ => false,
    }
}
fn mentions_bare(t: &T, k: usize) -> bool {
    match t {
        T::P(j) => *j == k,
        T::Int(w) | T::UInt(w) => w.single() == Some(k),
        T::Tup(v) => v.iter().any(|t| mentions_bare(t, k)),
        T::Arr(t, w) => mentions_bare(t, k) || w.single() == Some(k),
        T::G(_, v) => v.iter().any(|a| match a {
            Arg::T(t) => mentions_bare(t, k),
            Arg::W(w) => w.single() == Some(k),
            _ => false,
        }),
        _ => false,
    }
}
pub fn tsize(t: &T) -> usize {
    match t {
        T::Tup(v) => 1 + v.iter().map(tsize).sum::<usize>(),
        T::Arr(t, _) => 1 + tsize(t),
        T::G(_, v) => 1 + v.iter().map(|a| if let Arg::T(t) = a { tsize(t) } else { 1 }).sum::<usize>(),
        _ => 1,
    }
}

impl GP {
    /// the impl of `tr` for `t`, with the binding of its parameters
    pub fn find_impl(&self, gp: &[Param], tr: &Bound, t: &T) -> Option<(usize, Vec<Arg>)> {
        for (i, im) in self.impls.iter().enumerate() {
            let Some(b) = &im.tr else { continue };
            if b.0 != tr.0 {
                continue;
            }
            if let Some(a) = self.impl_matches(gp, i, t) {
                if b.1.iter().map(|x| sa(x, &a, None)).collect::<Vec<_>>() == tr.1 {
                    return Some((i, a));
                }
            }
        }
        None
    }
    pub fn impl_matches(&self, gp: &[Param], i: usize, t: &T) -> Option<Vec<Arg>> {
        let im = &self.impls[i];
        let mut b = vec![None; im.gp.len()];
        if !unify(&im.target, t, &mut b) {
            return None;
        }
        let a: Option<Vec<Arg>> = b.into_iter().collect();
        let a = a?;
        self.ok_args(gp, &im.gp, &a).then_some(a)
    }
    /// do the arguments `a` (in the context `gp`) satisfy the bounds of `ps`?
    pub fn ok_args(&self, gp: &[Param], ps: &[Param], a: &[Arg]) -> bool {
        ps.iter().zip(a).all(|(p, x)| match (&p.k, x) {
            (PK::T(bs, eq), Arg::T(t)) => {
                (!eq || self.has_eq(gp, t))
                    && bs.iter().all(|(tr, ta)| {
                        let ta: Vec<Arg> = ta.iter().map(|x| sa(x, a, None)).collect();
                        self.has_trait(gp, &(*tr, ta), t)
                    })
            }
            (PK::U(m), Arg::W(w)) => self.wmin(gp, w) >= *m && (!w.is_c() || w.c <= 40),
            (PK::B, Arg::B(_)) => true,
            _ => false,
        })
    }
    pub fn has_trait(&self, gp: &[Param], tr: &Bound, t: &T) -> bool {
        if let T::P(k) = t {
            return matches!(&gp[*k].k, PK::T(b, _) if b.contains(tr));
        }
        self.find_impl(gp, tr, t).is_some()
    }
    pub fn has_eq(&self, gp: &[Param], t: &T) -> bool {
        match t {
            T::P(k) => matches!(&gp[*k].k, PK::T(_, true)),
            T::Bool | T::Int(_) | T::UInt(_) => true,
            T::Tup(v) => v.len() <= 3 && v.iter().all(|t| self.has_eq(gp, t)),
            T::Arr(t, _) => self.has_eq(gp, t),
            _ => false,
        }
    }
    pub fn wmin(&self, gp: &[Param], w: &W) -> i64 {
        let mut r = w.c;
        for (k, v) in &w.t {
            let PK::U(m) = gp[*k].k else { panic!() };
            if *v < 0 {
                return i64::MIN;
            }
            r += v * m;
        }
        r
    }
}

// ------------------------------------------------------------------------------------ evaluation
#[derive(Clone)]
pub enum Slot {
    V(Val),
    L(Rc<(Vec<String>, E, Vars, Vec<Arg>)>),
}
pub type Vars = HashMap<String, Slot>;
pub struct Ev<'a> {
    pub p: &'a GP,
    pub steps: Cell<u64>,
    pub insts: std::cell::RefCell<std::collections::HashSet<(usize, Vec<Arg>)>>,
}
pub fn lt(t: &T) -> Ty {
    match t {
        T::Bool => Ty::Bool,
        T::Int(w) => Ty::Int(w.c as u32),
        T::UInt(w) => Ty::UInt(w.c as u32),
        T::Tup(v) => Ty::Tup(v.iter().map(lt).collect()),
        T::Arr(t, w) => Ty::Arr(Box::new(lt(t)), w.c as u32),
        _ => Ty::Bool,
    }
}
impl<'a> Ev<'a> {
    pub fn call(&self, u: usize, targs: &[Arg], args: Vec<Slot>) -> Result<Val, String> {
        self.steps.set(self.steps.get() + 1);
        if self.steps.get() > 4000 {
            return Err("too many calls".into());
        }
        self.insts.borrow_mut().insert((u, targs.to_vec()));
        let unit = &self.p.units[u];
        let vars: Vars = unit.sig.ps.iter().map(|p| p.0.clone()).zip(args).collect();
        self.ev(&unit.body, targs, &vars)
    }
    fn slot(&self, x: &E, a: &[Arg], v: &Vars) -> Result<Slot, String> {
        Ok(match &*x.k {
            K::Lam(ps, b) => Slot::L(Rc::new((ps.iter().map(|p| p.0.clone()).collect(), b.clone(), v.clone(), a.to_vec()))),
            K::Var(n) => v[n].clone(),
            _ => Slot::V(self.ev(x, a, v)?),
        })
    }
    pub fn ev(&self, x: &E, a: &[Arg], v: &Vars) -> Result<Val, String> {
        let cty = |t: &T| st(t, a, None);
        Ok(match &*x.k {
            K::Var(n) => match &v[n] {
                Slot::V(x) => x.clone(),
                _ => panic!("lambda as value"),
            },
            K::B(b) => Val::B(*b),
            K::I(i, _) => Val::I(i.clone()),
            K::N(w) => Val::I(sw(w, a).c.into()),
            K::PB(k) => Val::B(bval(&sb(&Bx::P(*k), a))),
            K::Op(op, p, q) => {
                let (x1, x2) = (self.ev(p, a, v)?, self.ev(q, a, v)?);
                match op {
                    Op::Eq => return Ok(val_eq(&x1, &x2).map(Val::B).unwrap_or(Val::U)),
                    Op::Ne => return Ok(val_eq(&x1, &x2).map(|b| Val::B(!b)).unwrap_or(Val::U)),
                    _ => {}
                }
                bin(&Prog::default(), *op, &lt(&cty(&p.ty)), &lt(&cty(&x.ty)), &x1, &x2)
            }
            K::Ext(_, p) => {
                let t = lt(&cty(&x.ty));
                let _ = int_w(&t);
                match self.ev(p, a, v)? {
                    Val::I(i) => Val::I(wrap(&t, &i)),
                    o => o,
                }
            }
            K::Tup(es) | K::Arr(es) => Val::T(es.iter().map(|x| self.ev(x, a, v)).collect::<Result<_, _>>()?),
            K::TupIdx(p, i) | K::Field(p, i) => match self.ev(p, a, v)? {
                Val::T(x) => x[*i].clone(),
                Val::U => Val::U,
                o => panic!("{o:?}"),
            },
            K::Rep(p) => {
                let T::Arr(_, w) = cty(&x.ty) else { panic!() };
                Val::T(vec![self.ev(p, a, v)?; w.c as usize])
            }
            K::Idx0(p) => match self.ev(p, a, v)? {
                Val::T(x) => x[0].clone(),
                o => panic!("{o:?}"),
            },
            K::Ctor(i, es) => {
                let vs: Vec<Val> = es.iter().map(|x| self.ev(x, a, v)).collect::<Result<_, _>>()?;
                let T::G(d, _) = &x.ty else { panic!() };
                if self.p.defs[*d].is_struct { Val::T(vs) } else { Val::E(*i, vs) }
            }
            K::Match(s, arms) => {
                let Val::E(i, vs) = self.ev(s, a, v)? else { panic!() };
                for (w, names, r) in arms {
                    if w.is_none() || *w == Some(i) {
                        let mut v = v.clone();
                        for (n, x) in names.iter().zip(vs) {
                            v.insert(n.clone(), Slot::V(x));
                        }
                        return self.ev(r, a, &v);
                    }
                }
                panic!("no arm")
            }
            K::If(c, p, q) => match self.ev(c, a, v)? {
                Val::B(true) => self.ev(p, a, v)?,
                Val::B(false) => self.ev(q, a, v)?,
                o => panic!("{o:?}"),
            },
            K::GenIf(c, p, q) => {
                if bval(&sb(c, a)) {
                    self.ev(p, a, v)?
                } else {
                    self.ev(q, a, v)?
                }
            }
            K::Let(ls, r) => {
                let mut v = v.clone();
                for (n, x) in ls {
                    let s = self.slot(x, a, &v)?;
                    v.insert(n.clone(), s);
                }
                self.ev(r, a, &v)?
            }
            K::Call(u, ta, _, es) => {
                let ta: Vec<Arg> = ta.iter().map(|t| sa(t, a, None)).collect();
                let args = es.iter().map(|x| self.slot(x, a, v)).collect::<Result<_, _>>()?;
                self.call(*u, &ta, args)?
            }
            K::MCall(m, slf, ta, _, es) => {
                let slf = cty(slf);
                let mut args: Vec<Slot> = es.iter().map(|x| self.slot(x, a, v)).collect::<Result<_, _>>()?;
                let (u, mut full) = match m {
                    M::Unit(u) => {
                        let im = self.p.units[*u].impl_.unwrap();
                        (*u, self.p.impl_matches(&[], im, &slf).ok_or("impl does not match")?)
                    }
                    M::Trait(b, k) => {
                        let b = (b.0, b.1.iter().map(|x| sa(x, a, None)).collect());
                        let (i, f) = self.p.find_impl(&[], &b, &slf).ok_or_else(|| format!("no impl for {slf:?}"))?;
                        (self.p.impls[i].methods[*k], f)
                    }
                };
                full.extend(ta.iter().map(|t| sa(t, a, None)));
                let n = args.len();
                args.truncate(n);
                self.call(u, &full, args)?
            }
            K::Assoc(b, k, slf, es) => {
                let slf = cty(slf);
                let b = (b.0, b.1.iter().map(|x| sa(x, a, None)).collect());
                let (i, full) = self.p.find_impl(&[], &b, &slf).ok_or_else(|| format!("no impl for {slf:?}"))?;
                let args = es.iter().map(|x| self.slot(x, a, v)).collect::<Result<_, _>>()?;
                self.call(self.p.impls[i].methods[*k], &full, args)?
            }
            K::Lam(..) => panic!("lambda as value"),
            K::LCall(n, es) => {
                let Slot::L(l) = &v[n] else { panic!() };
                let mut vars = l.2.clone();
                for (n, x) in l.0.iter().zip(es) {
                    vars.insert(n.clone(), Slot::V(self.ev(x, a, v)?));
                }
                self.ev(&l.1, &l.3, &vars)?
            }
        })
    }
}

/// concrete type -> reference type (instances of generic definitions become definitions)
pub fn concrete(p: &GP, t: &T, prog: &mut Prog, memo: &mut HashMap<T, usize>) -> Ty {
    match t {
        T::Tup(v) => Ty::Tup(v.iter().map(|t| concrete(p, t, prog, memo)).collect()),
        T::Arr(t, w) => Ty::Arr(Box::new(concrete(p, t, prog, memo)), w.c as u32),
        T::G(d, a) => {
            if let Some(k) = memo.get(t) {
                return Ty::Named(*k);
            }
            let def = &p.defs[*d];
            let vs: Vec<(String, Vec<(String, Ty)>)> =
                def.variants.iter().map(|(n, f)| (n.clone(), f.iter().map(|(n, t)| (n.clone(), concrete(p, &st(t, a, None), prog, memo))).collect())).collect();
            let kind = if def.is_struct { DefKind::Struct(vs[0].1.clone()) } else { DefKind::Enum(vs) };
            prog.defs.push(Def { name: def.name.clone(), kind });
            memo.insert(t.clone(), prog.defs.len() - 1);
            Ty::Named(prog.defs.len() - 1)
        }
        t => lt(t),
    }
}

// ------------------------------------------------------------------------------------ printer
pub struct Pr<'a> {
    pub p: &'a GP,
    pub pre: String,
}
impl<'a> Pr<'a> {
    pub fn w(&self, w: &W, gp: &[Param]) -> String {
        if w.is_c() {
            return w.c.to_string();
        }
        if let Some(k) = w.single() {
            return gp[k].name.clone();
        }
        format!("{{{}}}", self.wi(w, gp))
    }
    /// without braces
    pub fn wi(&self, w: &W, gp: &[Param]) -> String {
        if w.is_c() {
            return w.c.to_string();
        }
        let mut parts: Vec<String> =
            w.t.iter().map(|(k, v)| if *v == 1 { gp[*k].name.clone() } else if v % 2 == 0 { format!("{v} * {}", gp[*k].name) } else { format!("{} * {v}", gp[*k].name) }).collect();
        let mut s = String::new();
        if w.c > 0 && w.c % 2 == 0 {
            parts.insert(0, w.c.to_string());
        } else if w.c > 0 {
            parts.push(w.c.to_string());
        }
        s.push_str(&parts.join(" + "));
        if w.c < 0 {
            s.push_str(&format!(" - {}", -w.c));
        }
        s
    }
    pub fn bx(&self, b: &Bx, gp: &[Param]) -> String {
        match b {
            Bx::C(b) => b.to_string(),
            Bx::P(k) => gp[*k].name.clone(),
            Bx::Not(x) => format!("!({})", self.bx(x, gp)),
            Bx::Op(o, x, y) => format!("({}) {o} ({})", self.bx(x, gp), self.bx(y, gp)),
            Bx::Cmp(o, x, y) => format!("{} {o} {}", self.wi(x, gp), self.wi(y, gp)),
        }
    }
    pub fn arg(&self, a: &Arg, gp: &[Param]) -> String {
        match a {
            Arg::T(t) => self.ty(t, gp),
            Arg::W(w) => self.w(w, gp),
            Arg::B(b) => match b {
                Bx::C(b) => b.to_string(),
                Bx::P(k) => gp[*k].name.clone(),
                b => format!("{{{}}}", self.bx(b, gp)),
            },
        }
    }
    pub fn args(&self, a: &[Arg], gp: &[Param]) -> String {
        if a.is_empty() {
            return String::new();
        }
        format!("<{}>", a.iter().map(|x| self.arg(x, gp)).collect::<Vec<_>>().join(", "))
    }
    pub fn ty(&self, t: &T, gp: &[Param]) -> String {
        match t {
            T::Bool => "bool".into(),
            T::Int(w) => format!("int<{}>", self.w(w, gp)),
            T::UInt(w) => format!("uint<{}>", self.w(w, gp)),
            T::Tup(v) => format!("({})", v.iter().map(|t| self.ty(t, gp)).collect::<Vec<_>>().join(", ")),
            T::Arr(t, w) => format!("[{}; {}]", self.ty(t, gp), self.w(w, gp)),
            T::P(k) => gp[*k].name.clone(),
            T::G(d, a) => format!("{}{}{}", self.pre, self.p.defs[*d].name, self.args(a, gp)),
            T::Slf => "Self".into(),
        }
    }
    fn bound(&self, b: &Bound, gp: &[Param]) -> String {
        format!("{}{}{}", self.pre, self.p.traits[b.0].name, self.args(&b.1, gp))
    }
    fn bounds(&self, p: &Param, gp: &[Param]) -> String {
        let PK::T(b, eq) = &p.k else { return String::new() };
        let mut v: Vec<String> = b.iter().map(|b| self.bound(b, gp)).collect();
        if *eq {
            v.push("PartialEq".into());
        }
        v.join(" + ")
    }
    /// parameter list and where clause
    pub fn params(&self, ps: &[Param], gp: &[Param], where_: bool) -> (String, String) {
        if ps.is_empty() {
            return Default::default();
        }
        let mut wh = vec![];
        let l: Vec<String> = ps
            .iter()
            .map(|p| match &p.k {
                PK::T(..) => {
                    let b = self.bounds(p, gp);
                    if b.is_empty() {
                        p.name.clone()
                    } else if where_ {
                        wh.push(format!("{}: {b}", p.name));
                        p.name.clone()
                    } else {
                        format!("{}: {b}", p.name)
                    }
                }
                PK::U(m) => {
                    if where_ {
                        wh.push(format!("{} >= {m} else \"too small\"", p.name));
                    }
                    format!("#uint {}", p.name)
                }
                PK::B => format!("#bool {}", p.name),
            })
            .collect();
        (format!("<{}>", l.join(", ")), if wh.is_empty() { String::new() } else { format!(" where {}", wh.join(", ")) })
    }
    fn sig(&self, s: &Sig, has_self: bool, gp: &[Param], slf: Option<&T>) -> String {
        let mut v = vec![];
        if has_self {
            v.push("self".to_string());
        }
        for (n, t) in s.ps.iter().skip(if has_self { 1 } else { 0 }) {
            v.push(format!(
                "{n}: {}",
                match t {
                    PTy::V(t) => self.self_ty(t, gp, slf),
                    PTy::F(a, r) => format!("impl Fn({}) -> {}", a.iter().map(|t| self.ty(t, gp)).collect::<Vec<_>>().join(", "), self.ty(r, gp)),
                }
            ));
        }
        format!("({}) -> {}", v.join(", "), self.self_ty(&s.ret, gp, slf))
    }
    fn self_ty(&self, t: &T, gp: &[Param], slf: Option<&T>) -> String {
        if Some(t) == slf && tsize(t) % 2 == 0 { "Self".into() } else { self.ty(t, gp) }
    }
    pub fn unit(&self, u: usize) -> String {
        let x = &self.p.units[u];
        let slf = x.impl_.map(|i| &self.p.impls[i].target);
        let (ps, wh) = self.params(&x.gp[x.outer..], &x.gp, x.where_);
        // method names carry the prefix as well: several units share one file, and types such as bool
        let name = format!("{}{}", self.pre, x.name);
        format!(
            "{}fn {name}{ps}{}{wh} {}\n",
            if x.inline { "#[inline] " } else { "" },
            self.sig(&x.sig, x.has_self, &x.gp, slf),
            self.block(&x.body, &x.gp)
        )
    }
    fn block(&self, x: &E, gp: &[Param]) -> String {
        match &*x.k {
            K::Let(ls, r) => {
                let mut s = String::from("{ ");
                for (n, v) in ls {
                    if let K::Lam(..) = &*v.k {
                        s.push_str(&format!("let {n} = {}; ", self.ex(v, gp)));
                    } else {
                        s.push_str(&format!("let {n}: {} = {}; ", self.ty(&v.ty, gp), self.ex(v, gp)));
                    }
                }
                s.push_str(&format!("{} }}", self.ex(r, gp)));
                s
            }
            _ => format!("{{ {} }}", self.ex(x, gp)),
        }
    }
    fn typed(&self, t: &T, gp: &[Param], s: String) -> String {
        format!("{{ let t_: {} = {s}; t_ }}", self.ty(t, gp))
    }
    fn list(&self, es: &[E], gp: &[Param]) -> String {
        es.iter().map(|x| self.ex(x, gp)).collect::<Vec<_>>().join(", ")
    }
    fn atom(&self, x: &E, gp: &[Param]) -> String {
        let s = self.ex(x, gp);
        match &*x.k {
            K::Var(_) | K::TupIdx(..) | K::Field(..) | K::Idx0(_) | K::Call(..) | K::MCall(..) | K::Tup(_) | K::LCall(..) | K::Assoc(..) => s,
            _ => format!("({s})"),
        }
    }
    pub fn ex(&self, x: &E, gp: &[Param]) -> String {
        match &*x.k {
            K::Var(n) => n.clone(),
            K::B(b) => b.to_string(),
            K::I(i, st) => match &x.ty {
                T::Int(w) | T::UInt(w) if w.is_c() && *st == 0 => {
                    let s = if matches!(x.ty, T::Int(_)) { "i" } else { "u" };
                    if i.sign() == num::bigint::Sign::Minus { format!("(-{}{s}{})", -i, w.c) } else { format!("{i}{s}{}", w.c) }
                }
                _ => self.typed(&x.ty, gp, if i.sign() == num::bigint::Sign::Minus { format!("(-{})", -i) } else { i.to_string() }),
            },
            K::N(w) => self.typed(&x.ty, gp, self.w(w, gp)),
            K::PB(k) => gp[*k].name.clone(),
            K::Op(o, p, q) => {
                let s = format!("{} {} {}", self.atom(p, gp), o.text(), self.atom(q, gp));
                if matches!(o, Op::Add | Op::Sub | Op::Mul) { self.typed(&x.ty, gp, s) } else { s }
            }
            K::Ext(f, p) => match *f {
                "trunc_m" => self.typed(&x.ty, gp, format!("{}.trunc()", self.atom(p, gp))),
                f => self.typed(&x.ty, gp, format!("{f}({})", self.ex(p, gp))),
            },
            K::Tup(v) => format!("({})", self.list(v, gp)),
            K::TupIdx(p, i) => format!("{}.{i}", self.atom(p, gp)),
            K::Arr(v) => format!("[{}]", self.list(v, gp)),
            K::Rep(p) => {
                let T::Arr(_, w) = &x.ty else { panic!() };
                format!("[{}; {}]", self.ex(p, gp), self.w(w, gp))
            }
            K::Idx0(p) => format!("{}[0]", self.atom(p, gp)),
            K::Ctor(i, es) => {
                let T::G(d, _) = &x.ty else { panic!() };
                let def = &self.p.defs[*d];
                if def.is_struct {
                    self.typed(&x.ty, gp, format!("{}{}({})", self.pre, def.name, self.list(es, gp)))
                } else if es.is_empty() {
                    self.typed(&x.ty, gp, format!("{}{}::{}", self.pre, def.name, def.variants[*i].0))
                } else {
                    self.typed(&x.ty, gp, format!("{}{}::{}({})", self.pre, def.name, def.variants[*i].0, self.list(es, gp)))
                }
            }
            K::Field(p, i) => {
                let T::G(d, _) = &p.ty else { panic!() };
                format!("{}.{}", self.atom(p, gp), self.p.defs[*d].variants[0].1[*i].0)
            }
            K::Match(s, arms) => {
                let T::G(d, _) = &s.ty else { panic!() };
                let def = &self.p.defs[*d];
                let a: Vec<String> = arms
                    .iter()
                    .map(|(w, ns, r)| {
                        let pat = match w {
                            None => "_".to_string(),
                            Some(i) if def.variants[*i].1.is_empty() => format!("{}{}::{}", self.pre, def.name, def.variants[*i].0),
                            Some(i) => format!("{}{}::{}({})", self.pre, def.name, def.variants[*i].0, ns.join(", ")),
                        };
                        format!("{pat} => {}", self.ex(r, gp))
                    })
                    .collect();
                format!("match {} {{ {} }}", self.ex(s, gp), a.join(", "))
            }
            K::If(c, p, q) => format!("if {} {} else {}", self.ex(c, gp), self.block(p, gp), self.block(q, gp)),
            K::GenIf(c, p, q) => format!("gen if {} {} else {}", self.bx(c, gp), self.block(p, gp), self.block(q, gp)),
            K::Let(..) => self.block(x, gp),
            K::Call(u, ta, turbo, es) => {
                let un = &self.p.units[*u];
                let t = if *turbo { format!("::{}", self.args(ta, gp)) } else { String::new() };
                let s = format!("{}{}{t}({})", self.pre, un.name, self.list(es, gp));
                if *turbo || ta.is_empty() { s } else { self.typed(&x.ty, gp, s) }
            }
            K::MCall(m, _, ta, turbo, es) => {
                let name = match m {
                    M::Unit(u) => &self.p.units[*u].name,
                    M::Trait(b, k) => &self.p.traits[b.0].methods[*k].0,
                };
                let name = format!("{}{name}", self.pre);
                let t = if *turbo { format!("::{}", self.args(ta, gp)) } else { String::new() };
                // the receiver's type has to be known, the result of a bounded parameter's == is not
                let mut recv = self.atom(&es[0], gp);
                if recv.contains("==") || recv.contains("!=") {
                    recv = self.typed(&es[0].ty, gp, recv);
                }
                let s = format!("{recv}.{name}{t}({})", self.list(&es[1..], gp));
                self.typed(&x.ty, gp, s)
            }
            K::Assoc(b, k, slf, es) => {
                let name = format!("{}{}", self.pre, self.p.traits[b.0].methods[*k].0);
                self.typed(&x.ty, gp, format!("{}::{name}({})", self.ty(slf, gp), self.list(es, gp)))
            }
            K::Lam(ps, b) => {
                let re: String = ps.iter().map(|(n, t)| format!("let {n}: {} = {n}; ", self.ty(t, gp))).collect();
                format!("fn |{}| {{ {re}let r_: {} = {}; r_ }}", ps.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(", "), self.ty(&b.ty, gp), self.ex(b, gp))
            }
            K::LCall(n, es) => {
                let tup = if es.len() == 1 { format!("({},)", self.ex(&es[0], gp)) } else { format!("({})", self.list(es, gp)) };
                self.typed(&x.ty, gp, format!("{n}.call({tup})"))
            }
        }
    }
    pub fn prog(&self) -> String {
        let mut s = String::new();
        for (k, i) in &self.p.order {
            match k {
                'd' => {
                    let d = &self.p.defs[*i];
                    let (ps, _) = self.params(&d.gp, &d.gp, false);
                    let fl = |f: &Vec<(String, T)>| f.iter().map(|(n, t)| format!("{n}: {}", self.ty(t, &d.gp))).collect::<Vec<_>>().join(", ");
                    if d.is_struct {
                        s.push_str(&format!("struct {}{}{ps} {{ {} }}\n", self.pre, d.name, fl(&d.variants[0].1)));
                    } else {
                        let vs: Vec<String> =
                            d.variants.iter().map(|(n, f)| if f.is_empty() { n.clone() } else { format!("{n} {{ {} }}", fl(f)) }).collect();
                        s.push_str(&format!("enum {}{}{ps} {{ {} }}\n", self.pre, d.name, vs.join(", ")));
                    }
                }
                't' => {
                    let t = &self.p.traits[*i];
                    let gp: Vec<Param> = (0..t.nargs).map(|k| Param { name: format!("X{k}"), k: PK::T(vec![], false) }).collect();
                    let (ps, _) = self.params(&gp, &gp, false);
                    s.push_str(&format!("trait {}{}{ps} {{ ", self.pre, t.name));
                    for (n, hs, sig) in &t.methods {
                        s.push_str(&format!("fn {}{n}{}; ", self.pre, self.sig(sig, *hs, &gp, None)));
                    }
                    s.push_str("}\n");
                }
                'i' => {
                    let im = &self.p.impls[*i];
                    let (ps, wh) = self.params(&im.gp, &im.gp, im.where_);
                    let tr = im.tr.as_ref().map(|b| format!("{} for ", self.bound(b, &im.gp))).unwrap_or_default();
                    s.push_str(&format!("impl{ps} {tr}{}{wh} {{\n", self.ty(&im.target, &im.gp)));
                    for m in &im.methods {
                        s.push_str("    ");
                        s.push_str(&self.unit(*m));
                    }
                    s.push_str("}\n");
                }
                _ => s.push_str(&self.unit(*i)),
            }
        }
        s
    }
}

// ------------------------------------------------------------------------------------ generator
pub struct GB<'a> {
    pub g: &'a mut Gen,
    pub p: GP,
    pub gp: Vec<Param>,
    pub scope: Vec<(String, PTy)>,
    pub fuel: i64,
    pub id: usize,
    /// trait-heavy programs
    pub traits: bool,
    /// the expression being generated is the value of the unit (where `gen if` is allowed)
    pub tail: bool,
}
impl<'a> GB<'a> {
    pub fn new(g: &'a mut Gen, traits: bool) -> GB<'a> {
        GB { g, p: GP::default(), gp: vec![], scope: vec![], fuel: 0, id: 0, traits, tail: false }
    }
    fn nm(&mut self, s: &str) -> String {
        self.id += 1;
        format!("{s}{}", self.id)
    }
    fn uparams(&self) -> Vec<usize> {
        (0..self.gp.len()).filter(|k| matches!(self.gp[*k].k, PK::U(_))).collect()
    }
    fn tparams(&self) -> Vec<usize> {
        (0..self.gp.len()).filter(|k| matches!(self.gp[*k].k, PK::T(..))).collect()
    }
    fn w(&mut self, max: i64) -> W {
        let us = self.uparams();
        if !us.is_empty() && self.g.bool() {
            W::p(*self.g.pick(&us))
        } else {
            W::c(self.g.range(1, max as u64) as i64)
        }
    }
    fn ty(&mut self, d: u32) -> T {
        let from = self.g.used();
        let r = self.ty_(d);
        self.g.span(from, r)
    }
    fn ty_(&mut self, d: u32) -> T {
        let n = if d == 0 { 6 } else { 11 };
        match self.g.below(n) {
            0 => T::Bool,
            1 => T::UInt(self.w(9)),
            2 => T::Int(self.w(9)),
            3..=5 => {
                let ts = self.tparams();
                if ts.is_empty() { T::UInt(W::c(self.g.range(1, 12) as i64)) } else { T::P(*self.g.pick(&ts)) }
            }
            6 | 7 => {
                let n = self.g.usize(2, 3);
                T::Tup((0..n).map(|_| self.ty(d - 1)).collect())
            }
            8 => {
                let t = self.ty(d - 1);
                let w = self.w(3);
                T::Arr(Box::new(t), w)
            }
            _ => {
                if self.p.defs.is_empty() {
                    return T::Bool;
                }
                let k = self.g.below(self.p.defs.len() as u64) as usize;
                let ps = self.p.defs[k].gp.clone();
                T::G(
                    k,
                    ps.iter()
                        .map(|p| match p.k {
                            PK::T(..) => Arg::T(self.ty(d - 1)),
                            PK::U(_) => Arg::W(self.w(4)),
                            PK::B => Arg::B(Bx::C(self.g.bool())),
                        })
                        .collect(),
                )
            }
        }
    }
    /// a type satisfying the bounds, or None
    fn bounded(&mut self, bs: &[Bound], eq: bool) -> Option<T> {
        for _ in 0..12 {
            let t = if !bs.is_empty() && self.g.chance(2, 3) {
                // something an impl exists for, or a parameter with the bound
                let tr = bs[0].0;
                let c: Vec<usize> = (0..self.p.impls.len()).filter(|i| self.p.impls[*i].tr.as_ref().map(|b| b.0) == Some(tr)).collect();
                let ts = self.tparams();
                if c.is_empty() || (!ts.is_empty() && self.g.bool()) {
                    if ts.is_empty() {
                        return None;
                    }
                    T::P(*self.g.pick(&ts))
                } else {
                    let i = *self.g.pick(&c);
                    let (ps, target) = (self.p.impls[i].gp.clone(), self.p.impls[i].target.clone());
                    match self.args_for(&ps, vec![None; ps.len()]) {
                        Some(a) => st(&target, &a, None),
                        None => continue,
                    }
                }
            } else {
                self.ty(1)
            };
            if tsize(&t) > 9 {
                continue;
            }
            if (!eq || self.p.has_eq(&self.gp, &t)) && bs.iter().all(|b| self.p.has_trait(&self.gp, b, &t)) {
                return Some(t);
            }
        }
        None
    }
    fn args_for(&mut self, ps: &[Param], mut a: Vec<Option<Arg>>) -> Option<Vec<Arg>> {
        for (k, p) in ps.iter().enumerate() {
            if a[k].is_none() {
                a[k] = Some(match &p.k {
                    PK::T(bs, eq) => {
                        // bounds may mention earlier parameters
                        let known: Vec<Arg> = a.iter().map(|x| x.clone().unwrap_or(Arg::T(T::Bool))).collect();
                        let bs: Vec<Bound> = bs.iter().map(|(t, v)| (*t, v.iter().map(|x| sa(x, &known, None)).collect())).collect();
                        Arg::T(self.bounded(&bs, *eq)?)
                    }
                    PK::U(m) => {
                        let us = self.uparams();
                        let mut w = if !us.is_empty() && self.g.bool() { W::p(*self.g.pick(&us)) } else { W::c(self.g.range(*m as u64, *m as u64 + 5) as i64) };
                        if self.g.chance(1, 4) {
                            w = w.add(&W::c(1));
                        }
                        Arg::W(w)
                    }
                    PK::B => Arg::B(self.bx(1)),
                });
            }
        }
        let a: Vec<Arg> = a.into_iter().map(|x| x.unwrap()).collect();
        self.p.ok_args(&self.gp, ps, &a).then_some(a)
    }
    fn bx(&mut self, d: u32) -> Bx {
        let bs: Vec<usize> = (0..self.gp.len()).filter(|k| matches!(self.gp[*k].k, PK::B)).collect();
        match self.g.below(if d == 0 { 4 } else { 8 }) {
            0 => Bx::C(self.g.bool()),
            1 if !bs.is_empty() => Bx::P(*self.g.pick(&bs)),
            1..=3 => {
                let (a, b) = (self.w(4), self.w(4));
                Bx::Cmp(*self.g.pick(&["==", "!=", "<", "<=", ">", ">="]), a, b)
            }
            4 => Bx::Not(Box::new(self.bx(d - 1))),
            _ => {
                let o = *self.g.pick(&["&&", "||", "^^"]);
                Bx::Op(o, Box::new(self.bx(d - 1)), Box::new(self.bx(d - 1)))
            }
        }
    }
    // ---------------------------------------------------------------- expressions
    fn projections(&self, ty: &T) -> Vec<E> {
        let mut out = vec![];
        fn go(b: &GB, x: E, ty: &T, d: u32, out: &mut Vec<E>) {
            if x.ty == *ty {
                out.push(x.clone());
            }
            if d == 0 {
                return;
            }
            match x.ty.clone() {
                T::Tup(v) => {
                    for (i, t) in v.iter().enumerate() {
                        go(b, e(t, K::TupIdx(x.clone(), i)), ty, d - 1, out);
                    }
                }
                T::Arr(t, w) if b.p.wmin(&b.gp, &w) >= 1 => go(b, e(&t, K::Idx0(x.clone())), ty, d - 1, out),
                T::G(k, a) if b.p.defs[k].is_struct => {
                    for (i, (_, t)) in b.p.defs[k].variants[0].1.iter().enumerate() {
                        go(b, e(&st(t, &a, None), K::Field(x.clone(), i)), ty, d - 1, out);
                    }
                }
                _ => {}
            }
        }
        for (n, t) in &self.scope {
            if let PTy::V(t) = t {
                go(self, e(t, K::Var(n.clone())), ty, 2, &mut out);
            }
        }
        out
    }
    /// something of this type without recursion into calls; None if there is no way
    fn leaf(&mut self, ty: &T, depth: u32) -> Option<E> {
        let pr = self.projections(ty);
        if !pr.is_empty() && self.g.below(8) < 7 {
            return Some(self.g.pick(&pr).clone());
        }
        let d = depth.saturating_sub(1);
        Some(match ty {
            T::Bool => {
                let bs: Vec<usize> = (0..self.gp.len()).filter(|k| matches!(self.gp[*k].k, PK::B)).collect();
                if !bs.is_empty() && self.g.bool() { e(ty, K::PB(*self.g.pick(&bs))) } else { e(ty, K::B(self.g.bool())) }
            }
            T::UInt(w) if w.is_c() => {
                if w.c >= 8 && self.g.chance(1, 2) {
                    let us = self.uparams();
                    if !us.is_empty() {
                        return Some(e(ty, K::N(W::p(*self.g.pick(&us)))));
                    }
                }
                e(ty, K::I(self.g.bits(w.c as usize).into(), self.g.below(2) as u8))
            }
            T::Int(w) if w.is_c() => e(ty, K::I(lang::wrap_s(&BigInt::from(self.g.bits(w.c as usize)), w.c as u32), self.g.below(2) as u8)),
            T::UInt(w) | T::Int(w) => {
                if self.p.wmin(&self.gp, w) < 1 {
                    return None;
                }
                let v = if matches!(ty, T::UInt(_)) { self.g.below(2) as i64 } else { -(self.g.below(2) as i64) };
                e(ty, K::I(v.into(), 1))
            }
            T::Tup(v) => {
                let es: Option<Vec<E>> = v.iter().map(|t| self.leaf(t, d)).collect();
                e(ty, K::Tup(es?))
            }
            T::Arr(t, w) => {
                if w.is_c() && self.g.bool() {
                    let es: Option<Vec<E>> = (0..w.c).map(|_| self.leaf(t, d)).collect();
                    e(ty, K::Arr(es?))
                } else {
                    let x = self.leaf(t, d)?;
                    if !w.is_c() && w.single().is_none() {
                        return pr.first().cloned();
                    }
                    e(ty, K::Rep(x))
                }
            }
            T::G(k, a) => {
                let def = self.p.defs[*k].clone();
                let order: Vec<usize> = {
                    let mut o: Vec<usize> = (0..def.variants.len()).collect();
                    self.g.shuffle(&mut o);
                    o
                };
                for i in order {
                    let es: Option<Vec<E>> = def.variants[i].1.iter().map(|(_, t)| self.leaf(&st(t, a, None), d)).collect();
                    if let Some(es) = es {
                        return Some(e(ty, K::Ctor(i, es)));
                    }
                }
                return None;
            }
            T::P(k) => {
                if let Some(x) = pr.first() {
                    return Some(x.clone());
                }
                let PK::T(bs, _) = self.gp[*k].k.clone() else { panic!() };
                for b in bs {
                    for (m, (_, hs, sig)) in self.p.traits[b.0].methods.iter().enumerate() {
                        if !hs && sig.ret == T::Slf && sig.ps.is_empty() {
                            return Some(e(ty, K::Assoc(b.clone(), m, ty.clone(), vec![])));
                        }
                    }
                }
                return None;
            }
            T::Slf => panic!(),
        })
    }
    /// value of a unit
    fn tail(&mut self, ty: &T, d: u32) -> Option<E> {
        self.tail = true;
        let r = self.ex(ty, d);
        self.tail = false;
        r
    }
    pub fn ex(&mut self, ty: &T, d: u32) -> Option<E> {
        let from = self.g.used();
        let r = self.ex_(ty, d);
        self.g.span(from, r)
    }
    fn ex_(&mut self, ty: &T, d: u32) -> Option<E> {
        let tail = std::mem::take(&mut self.tail);
        self.fuel -= 1;
        if d == 0 || self.fuel < 0 {
            return self.leaf(ty, 3);
        }
        for _ in 0..3 {
            if let Some(x) = self.try_ex(ty, d, tail) {
                return Some(x);
            }
        }
        self.leaf(ty, 3)
    }
    fn try_ex(&mut self, ty: &T, d: u32, tail: bool) -> Option<E> {
        Some(match self.g.below(14) {
            0 => return self.leaf(ty, 3),
            1 => {
                let c = self.ex(&T::Bool, d - 1)?;
                let (a, b) = (self.ex(ty, d - 1)?, self.ex(ty, d - 1)?);
                e(ty, K::If(c, a, b))
            }
            2 => {
                if !tail {
                    return None;
                }
                let c = self.bx(2);
                let (a, b) = (self.tail(ty, d - 1)?, self.tail(ty, d - 1)?);
                e(ty, K::GenIf(c, a, b))
            }
            3 => {
                let t = self.ty(1);
                let x = self.ex(&t, d - 1)?;
                let n = self.nm("v");
                let l = self.scope.len();
                self.scope.push((n.clone(), PTy::V(t)));
                self.tail = tail;
                let r = self.ex(ty, d - 1);
                self.tail = false;
                self.scope.truncate(l);
                e(ty, K::Let(vec![(n, x)], r?))
            }
            4 => {
                // match on an enum in scope
                let mut cands = vec![];
                for (n, t) in &self.scope {
                    if let PTy::V(t @ T::G(k, _)) = t {
                        if !self.p.defs[*k].is_struct {
                            cands.push(e(t, K::Var(n.clone())));
                        }
                    }
                }
                if cands.is_empty() {
                    return None;
                }
                let s = self.g.pick(&cands).clone();
                let T::G(k, a) = s.ty.clone() else { panic!() };
                let def = self.p.defs[k].clone();
                let mut arms = vec![];
                let stop = if self.g.chance(1, 3) { self.g.below(def.variants.len() as u64) as usize } else { usize::MAX };
                for (i, (_, f)) in def.variants.iter().enumerate() {
                    if i == stop {
                        arms.push((None, vec![], self.ex(ty, d - 1)?));
                        break;
                    }
                    let l = self.scope.len();
                    let mut ns = vec![];
                    for (_, t) in f {
                        let n = self.nm("m");
                        self.scope.push((n.clone(), PTy::V(st(t, &a, None))));
                        ns.push(n);
                    }
                    let r = self.ex(ty, d - 1);
                    self.scope.truncate(l);
                    arms.push((Some(i), ns, r?));
                }
                e(ty, K::Match(s, arms))
            }
            5 => {
                // a lambda in scope
                let c: Vec<(String, Vec<T>)> =
                    self.scope.iter().filter_map(|(n, t)| if let PTy::F(a, r) = t { (r == ty).then(|| (n.clone(), a.clone())) } else { None }).collect();
                if c.is_empty() {
                    return None;
                }
                let (n, ts) = self.g.pick(&c).clone();
                let es: Option<Vec<E>> = ts.iter().map(|t| self.ex(t, d - 1)).collect();
                e(ty, K::LCall(n, es?))
            }
            6..=8 => return self.call(ty, d),
            9 | 10 => return self.mcall(ty, d),
            _ => match ty {
                T::Bool => {
                    if self.g.chance(1, 4) {
                        let op = *self.g.pick(&[Op::LAnd, Op::LOr, Op::LXor]);
                        e(ty, K::Op(op, self.ex(&T::Bool, d - 1)?, self.ex(&T::Bool, d - 1)?))
                    } else {
                        let t = self.ty(1);
                        let op = if matches!(t, T::Int(_) | T::UInt(_)) {
                            *self.g.pick(&[Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge])
                        } else if self.p.has_eq(&self.gp, &t) {
                            *self.g.pick(&[Op::Eq, Op::Ne])
                        } else {
                            return None;
                        };
                        e(ty, K::Op(op, self.ex(&t, d - 1)?, self.ex(&t, d - 1)?))
                    }
                }
                T::Int(w) | T::UInt(w) => {
                    let signed = matches!(ty, T::Int(_));
                    let mk = |w: &W| if signed { T::Int(w.clone()) } else { T::UInt(w.clone()) };
                    match self.g.below(5) {
                        0 => {
                            let op = *self.g.pick(&[Op::WAdd, Op::WSub, Op::WMul, Op::And, Op::Or, Op::Xor]);
                            e(ty, K::Op(op, self.ex(ty, d - 1)?, self.ex(ty, d - 1)?))
                        }
                        1 => {
                            let n = w.add(&W::c(-1));
                            if self.p.wmin(&self.gp, &n) < 1 {
                                return None;
                            }
                            let op = *self.g.pick(&[Op::Add, Op::Sub]);
                            e(ty, K::Op(op, self.ex(&mk(&n), d - 1)?, self.ex(&mk(&n), d - 1)?))
                        }
                        2 => {
                            let n = w.add(&W::c(self.g.range(1, 3) as i64));
                            e(ty, K::Ext(*self.g.pick(&["trunc", "trunc_m"]), self.ex(&mk(&n), d - 1)?))
                        }
                        3 => {
                            let n = if !w.t.is_empty() && self.g.bool() {
                                // drop one parameter
                                let k = self.g.pick(&w.t).0;
                                let r = w.add(&W { c: 0, t: vec![(k, -1)] });
                                r
                            } else {
                                w.add(&W::c(-(self.g.range(1, 3) as i64)))
                            };
                            if self.p.wmin(&self.gp, &n) < 1 {
                                return None;
                            }
                            e(ty, K::Ext(if signed { "sext" } else { "zext" }, self.ex(&mk(&n), d - 1)?))
                        }
                        _ => {
                            // a + b = w
                            if w.t.is_empty() || w.t.iter().any(|t| t.1 < 0) || w.t.len() < 2 {
                                return None;
                            }
                            let a = W { c: 0, t: vec![w.t[0]] };
                            let b = w.add(&W { c: 0, t: vec![(w.t[0].0, -w.t[0].1)] });
                            if self.p.wmin(&self.gp, &a) < 1 || self.p.wmin(&self.gp, &b) < 1 {
                                return None;
                            }
                            e(ty, K::Op(Op::Mul, self.ex(&mk(&a), d - 1)?, self.ex(&mk(&b), d - 1)?))
                        }
                    }
                }
                T::Tup(v) => {
                    let es: Option<Vec<E>> = v.iter().map(|t| self.ex(t, d - 1)).collect();
                    e(ty, K::Tup(es?))
                }
                T::Arr(t, w) if w.is_c() => {
                    let es: Option<Vec<E>> = (0..w.c).map(|_| self.ex(t, d - 1)).collect();
                    e(ty, K::Arr(es?))
                }
                T::Arr(t, w) if w.single().is_some() => e(ty, K::Rep(self.ex(t, d - 1)?)),
                T::G(k, a) => {
                    let def = self.p.defs[*k].clone();
                    let i = self.g.below(def.variants.len() as u64) as usize;
                    let es: Option<Vec<E>> = def.variants[i].1.iter().map(|(_, t)| self.ex(&st(t, a, None), d - 1)).collect();
                    e(ty, K::Ctor(i, es?))
                }
                _ => return None,
            },
        })
    }
    fn arg(&mut self, t: &PTy, d: u32) -> Option<E> {
        match t {
            PTy::V(t) => self.ex(t, d),
            PTy::F(ts, r) => {
                let c: Vec<String> = self
                    .scope
                    .iter()
                    .filter_map(|(n, t)| if let PTy::F(a, q) = t { (q == r && a == ts).then(|| n.clone()) } else { None })
                    .collect();
                if !c.is_empty() && self.g.bool() {
                    return Some(e(r, K::Var(self.g.pick(&c).clone())));
                }
                let l = self.scope.len();
                let ps: Vec<(String, T)> = ts.iter().map(|t| (self.nm("l"), t.clone())).collect();
                // lambdas do not capture lambdas
                let keep = self.scope.clone();
                self.scope.retain(|s| matches!(s.1, PTy::V(_)));
                self.scope.extend(ps.iter().map(|(n, t)| (n.clone(), PTy::V(t.clone()))));
                let b = self.ex(r, d);
                let _ = l;
                self.scope = keep;
                Some(e(r, K::Lam(ps, b?)))
            }
        }
    }
    /// bind a unit's parameters so that it returns `ty`
    fn bind(&mut self, u: usize, ty: &T, mut b: Vec<Option<Arg>>) -> Option<Vec<Arg>> {
        let (gp, ret) = (self.p.units[u].gp.clone(), self.p.units[u].sig.ret.clone());
        if !unify(&ret, ty, &mut b) {
            return None;
        }
        let a = self.args_for(&gp, b)?;
        if a.iter().any(|x| if let Arg::T(t) = x { tsize(t) > 9 } else { false }) {
            return None;
        }
        (st(&ret, &a, None) == *ty).then_some(a)
    }
    fn call(&mut self, ty: &T, d: u32) -> Option<E> {
        let mut c: Vec<usize> = (0..self.p.units.len()).filter(|u| self.p.units[*u].impl_.is_none()).collect();
        self.g.shuffle(&mut c);
        for u in c {
            let n = self.p.units[u].gp.len();
            let Some(a) = self.bind(u, ty, vec![None; n]) else { continue };
            let unit = self.p.units[u].clone();
            let es: Option<Vec<E>> = unit.sig.ps.iter().map(|(_, t)| self.arg(&sub_pty(t, &a), d - 1)).collect();
            let inferable = (0..n).all(|k| {
                unit.sig.ps.iter().any(|(_, t)| match t {
                    PTy::V(t) => mentions_bare(t, k),
                    PTy::F(_, r) => mentions_bare(r, k),
                }) && !matches!(unit.gp[k].k, PK::B)
            });
            let has_fn = unit.sig.ps.iter().any(|p| matches!(p.1, PTy::F(..)));
            let turbo = n > 0 && !has_fn && (!inferable || self.g.bool());
            if has_fn && !inferable {
                return None;
            }
            return Some(e(ty, K::Call(u, a, turbo, es?)));
        }
        None
    }
    fn mcall(&mut self, ty: &T, d: u32) -> Option<E> {
        // trait methods and associated functions through bounds or impls, and inherent methods
        let mut opts: Vec<(M, T, Vec<Arg>, Vec<PTy>, bool)> = vec![];
        let mut selfs: Vec<T> = self.scope.iter().filter_map(|(_, t)| if let PTy::V(t) = t { Some(t.clone()) } else { None }).collect();
        for k in self.tparams() {
            selfs.push(T::P(k));
        }
        selfs.push(ty.clone());
        for _ in 0..2 {
            selfs.push(self.ty(1));
        }
        selfs.sort_by_key(|t| format!("{t:?}"));
        selfs.dedup();
        for s in &selfs {
            for (k, t) in self.p.traits.iter().enumerate() {
                let bounds: Vec<Bound> = match s {
                    T::P(j) => match &self.gp[*j].k {
                        PK::T(b, _) => b.iter().filter(|b| b.0 == k).cloned().collect(),
                        _ => vec![],
                    },
                    _ => (0..self.p.impls.len())
                        .filter_map(|i| {
                            let b = self.p.impls[i].tr.clone()?;
                            if b.0 != k {
                                return None;
                            }
                            let a = self.p.impl_matches(&self.gp, i, s)?;
                            Some((k, b.1.iter().map(|x| sa(x, &a, None)).collect()))
                        })
                        .collect(),
                };
                for b in bounds {
                    for (m, (_, hs, sig)) in t.methods.iter().enumerate() {
                        if st(&sig.ret, &b.1, Some(s)) == *ty {
                            let ps = sig.ps.iter().map(|(_, t)| sub_pty_self(t, &b.1, s)).collect();
                            opts.push((M::Trait(b.clone(), m), s.clone(), vec![], ps, *hs));
                        }
                    }
                }
            }
        }
        // inherent
        for u in 0..self.p.units.len() {
            let Some(i) = self.p.units[u].impl_ else { continue };
            if self.p.impls[i].tr.is_some() || i >= self.p.impls.len() {
                continue;
            }
            for s in selfs.clone() {
                let Some(a) = self.p.impl_matches(&self.gp, i, &s) else { continue };
                let n = self.p.units[u].gp.len();
                let mut b: Vec<Option<Arg>> = a.into_iter().map(Some).collect();
                b.resize(n, None);
                if let Some(a) = self.bind(u, ty, b) {
                    let unit = &self.p.units[u];
                    let ps = unit.sig.ps.iter().map(|(_, t)| sub_pty(t, &a)).collect();
                    opts.push((M::Unit(u), s.clone(), a[unit.outer..].to_vec(), ps, true));
                }
            }
        }
        if opts.is_empty() {
            return None;
        }
        let (m, s, ta, ps, hs) = self.g.pick(&opts).clone();
        let es: Option<Vec<E>> = ps.iter().map(|t| self.arg(t, d - 1)).collect();
        if !hs {
            let M::Trait(b, k) = m else { panic!() };
            if !matches!(s, T::P(_)) {
                return None;
            }
            return Some(e(ty, K::Assoc(b, k, s, es?)));
        }
        let turbo = !ta.is_empty();
        Some(e(ty, K::MCall(m, s, ta, turbo, es?)))
    }
    // ---------------------------------------------------------------- items
    fn gparams(&mut self, pre: &str, maxt: usize, maxu: usize, bounds: bool) -> Vec<Param> {
        let nt = self.g.usize(0, maxt);
        let nu = self.g.usize(if nt == 0 { 1.min(maxu) } else { 0 }, maxu);
        let mut v: Vec<Param> = vec![];
        for k in 0..nt {
            let bs = if bounds { self.rand_bounds(&v, k) } else { vec![] };
            let eq = bounds && self.g.chance(1, 5);
            v.push(Param { name: format!("{pre}T{k}"), k: PK::T(bs, eq) });
        }
        for k in 0..nu {
            v.push(Param { name: format!("{pre}N{k}"), k: PK::U(self.g.range(1, 2) as i64) });
        }
        if bounds && self.g.chance(1, 3) {
            v.push(Param { name: format!("{pre}B"), k: PK::B });
        }
        v
    }
    fn rand_bounds(&mut self, _earlier: &[Param], _k: usize) -> Vec<Bound> {
        let mut out = vec![];
        for tr in 0..self.p.traits.len() {
            let is_impl = self.p.impls.iter().any(|i| i.tr.as_ref().map(|b| b.0) == Some(tr) && i.gp.is_empty());
            if is_impl && self.g.chance(1, 2) {
                // the arguments of some impl with a closed head
                let c: Vec<Bound> =
                    self.p.impls.iter().filter(|i| i.gp.is_empty()).filter_map(|i| i.tr.clone()).filter(|b| b.0 == tr).collect();
                if !c.is_empty() {
                    out.push(self.g.pick(&c).clone());
                }
            }
        }
        out
    }
    fn def(&mut self) {
        let k = self.p.defs.len();
        let save = std::mem::take(&mut self.gp);
        let is_struct = self.g.bool();
        self.gp = self.gparams("", 2, 1, false);
        for p in &mut self.gp {
            if let PK::U(m) = &mut p.k {
                *m = 1;
            }
        }
        let names = ["zz", "a", "m", "b"];
        let nv = if is_struct { 1 } else { self.g.usize(2, 3) };
        let mut variants = vec![];
        for v in 0..nv {
            let nf = if is_struct { self.g.usize(1, 3) } else { self.g.usize(0, 2) };
            variants.push((["Va", "Ub", "Wc"][v].to_string(), (0..nf).map(|i| (names[i].to_string(), self.ty(1))).collect::<Vec<_>>()));
        }
        // every parameter is used
        for j in 0..self.gp.len() {
            let t = match self.gp[j].k {
                PK::T(..) => T::P(j),
                _ => T::UInt(W::p(j)),
            };
            let v = self.g.below(nv as u64) as usize;
            variants[v].1.push((format!("p{j}"), t));
        }
        let gp = std::mem::replace(&mut self.gp, save);
        self.p.defs.push(GDef { name: format!("D{k}"), gp, variants, is_struct });
        self.p.order.push(('d', k));
    }
    fn value_params(&mut self, gp: &[Param], from: usize, extra: usize) -> Vec<(String, PTy)> {
        let mut ps = vec![];
        for (k, p) in gp.iter().enumerate().skip(from) {
            match p.k {
                PK::T(..) => {
                    let t = match self.g.below(5) {
                        0 => T::Tup(vec![T::P(k), self.ty(0)]),
                        1 => T::Arr(Box::new(T::P(k)), self.w(3)),
                        _ => T::P(k),
                    };
                    ps.push((self.nm("x"), PTy::V(t)));
                }
                PK::U(_) if self.g.bool() => {
                    let t = if self.g.bool() { T::UInt(W::p(k)) } else { T::Arr(Box::new(self.ty(0)), W::p(k)) };
                    ps.push((self.nm("x"), PTy::V(t)));
                }
                _ => {}
            }
        }
        for _ in 0..extra {
            ps.push((self.nm("y"), PTy::V(self.ty(1))));
        }
        ps
    }
    fn ret_ty(&mut self) -> T {
        let t = self.ty(2);
        if self.g.chance(1, 3) {
            let us = self.uparams();
            if !us.is_empty() {
                let mut w = W::p(*self.g.pick(&us));
                w = match self.g.below(3) {
                    0 => w.add(&W::c(self.g.range(1, 3) as i64)),
                    1 => w.add(&w.clone()),
                    _ => w.add(&W::p(*self.g.pick(&us))),
                };
                return if self.g.bool() { T::UInt(w) } else { T::Int(w) };
            }
        }
        t
    }
    fn func(&mut self) {
        let u = self.p.units.len();
        self.gp = self.gparams("", 2, 2, true);
        let gp = self.gp.clone();
        let extra = self.g.usize(0, 2);
        let mut ps = self.value_params(&gp, 0, extra);
        let mut has_fn = false;
        if self.g.chance(1, 4) {
            let n = self.g.usize(1, 2);
            let ts = (0..n).map(|_| self.ty(0)).collect();
            let r = self.ty(1);
            ps.push((self.nm("f"), PTy::F(ts, r)));
            has_fn = true;
        }
        self.g.shuffle(&mut ps);
        let ret = self.ret_ty();
        self.scope = ps.clone();
        self.fuel = 14;
        let rec = if has_fn { None } else { self.uparams().first().cloned().filter(|_| self.g.chance(1, 4)) };
        let body = match rec {
            None => self.tail(&ret, 3),
            Some(k) => self.recursive(u, k, &ret, &ps),
        };
        let Some(body) = body else {
            self.gp.clear();
            return;
        };
        let gp = std::mem::take(&mut self.gp);
        let inline = self.g.chance(1, 6);
        let where_ = self.g.bool();
        self.p.units.push(Unit {
            name: format!("f{u}"),
            outer: 0,
            gp,
            sig: Sig { ps, ret },
            has_self: false,
            body,
            inline: inline && rec.is_none(),
            where_: where_ && rec.is_none(),
            turbo_ok: true,
            impl_: None,
        });
        self.p.order.push(('u', u));
    }
    /// static recursion over the integer parameter `k`
    fn recursive(&mut self, u: usize, k: usize, ret: &T, ps: &[(String, PTy)]) -> Option<E> {
        // the types of parameters and result may not depend on k, apart from turbofished ones
        let dep = |t: &T| format!("{t:?}").contains(&format!("({k}, "));
        if dep(ret) || ps.iter().any(|p| matches!(&p.1, PTy::V(t) if dep(t))) {
            return self.tail(ret, 3);
        }
        self.gp[k].k = PK::U(1);
        let base = self.tail(ret, 2)?;
        let args: Vec<Arg> = self
            .gp
            .iter()
            .enumerate()
            .map(|(j, p)| match p.k {
                PK::T(..) => Arg::T(T::P(j)),
                PK::U(_) if j == k => Arg::W(W::p(j).add(&W::c(-1))),
                PK::U(_) => Arg::W(W::p(j)),
                PK::B => Arg::B(Bx::P(j)),
            })
            .collect();
        let es: Option<Vec<E>> = ps.iter().map(|(_, t)| if let PTy::V(t) = t { self.ex(t, 1) } else { None }).collect();
        let rc = e(ret, K::Call(u, args, true, es?));
        let n = self.nm("r");
        self.scope.push((n.clone(), PTy::V(ret.clone())));
        let step = self.tail(ret, 2)?;
        let step = e(ret, K::Let(vec![(n, rc)], step));
        Some(e(ret, K::GenIf(Bx::Cmp("==", W::p(k), W::c(1)), base, step)))
    }
    fn trait_(&mut self) {
        let k = self.p.traits.len();
        let nargs = if self.g.chance(1, 3) { 1 } else { 0 };
        self.gp = (0..nargs).map(|k| Param { name: format!("X{k}"), k: PK::T(vec![], false) }).collect();
        let nm = self.g.usize(1, 2);
        let mut methods = vec![];
        for m in 0..nm {
            let hs = self.g.chance(4, 5);
            let mut ps = vec![];
            if hs {
                ps.push(("self".to_string(), PTy::V(T::Slf)));
            }
            let closed = |b: &mut Self| if b.g.chance(1, 3) { T::Slf } else { b.ty(1) };
            if hs {
                for _ in 0..self.g.usize(0, 2) {
                    let t = closed(self);
                    ps.push((self.nm("a"), PTy::V(t)));
                }
            }
            let ret = if hs { match self.g.below(3) { 0 => T::Slf, 1 => { let t = self.ty(0); T::Tup(vec![T::Slf, t]) } _ => self.ty(1) } } else { T::Slf };
            methods.push((format!("m{k}_{m}"), hs, Sig { ps, ret }));
        }
        self.gp.clear();
        self.p.traits.push(Trait { name: format!("Q{k}"), nargs, methods });
        self.p.order.push(('t', k));
        // impls with disjoint heads
        let mut heads: Vec<u32> = vec![0, 1, 2, 3, 4, 5, 6];
        self.g.shuffle(&mut heads);
        let n = self.g.usize(2, 4);
        let mut blanket_uint = self.g.bool();
        heads.truncate(n);
        // at least one closed head
        if !heads.contains(&0) && !(heads.contains(&1) && !blanket_uint) {
            heads.insert(0, 0);
        }
        // closed heads first, so that bounds have something to refer to
        heads.sort();
        for h in heads {
            match h {
                0 => self.impl_(Some(k), vec![], T::Bool),
                1 => {
                    if blanket_uint {
                        let gp = vec![Param { name: "N".into(), k: PK::U(1) }];
                        self.impl_(Some(k), gp, T::UInt(W::p(0)));
                    } else {
                        for w in [3, 5] {
                            self.impl_(Some(k), vec![], T::UInt(W::c(w)));
                        }
                    }
                    blanket_uint = true;
                }
                2 => {
                    let gp = vec![Param { name: "N".into(), k: PK::U(1) }];
                    self.impl_(Some(k), gp, T::Int(W::p(0)));
                }
                3 => {
                    let gp = vec![self.tp("A"), self.tp("C")];
                    self.impl_(Some(k), gp, T::Tup(vec![T::P(0), T::P(1)]));
                }
                4 => {
                    let gp = vec![self.tp("A")];
                    self.impl_(Some(k), gp, T::Tup(vec![T::P(0), T::Bool, T::P(0)]));
                }
                5 => {
                    let gp = vec![self.tp("A"), Param { name: "N".into(), k: PK::U(1) }];
                    self.impl_(Some(k), gp, T::Arr(Box::new(T::P(0)), W::p(1)));
                }
                _ => {
                    if !self.p.defs.is_empty() {
                        let d = self.g.below(self.p.defs.len() as u64) as usize;
                        self.def_impl(Some(k), d);
                    }
                }
            }
        }
    }
    fn tp(&mut self, n: &str) -> Param {
        let bs = self.rand_bounds(&[], 0);
        Param { name: n.into(), k: PK::T(bs, self.g.chance(1, 6)) }
    }
    /// blanket impl for a user type, or several specific ones
    fn def_impl(&mut self, tr: Option<usize>, d: usize) {
        let dgp = self.p.defs[d].gp.clone();
        if self.g.bool() || dgp.is_empty() {
            let gp: Vec<Param> = dgp
                .iter()
                .enumerate()
                .map(|(j, p)| match p.k {
                    PK::T(..) => self.tp(["A", "C", "E"][j]),
                    _ => Param { name: format!("N{j}"), k: p.k.clone() },
                })
                .collect();
            let a = gp.iter().enumerate().map(|(j, p)| if matches!(p.k, PK::T(..)) { Arg::T(T::P(j)) } else { Arg::W(W::p(j)) }).collect();
            self.impl_(tr, gp, T::G(d, a));
        } else {
            // specific instances, disjoint in the first argument
            let first: Vec<Arg> = match dgp[0].k {
                PK::T(..) => vec![Arg::T(T::Bool), Arg::T(T::UInt(W::c(3))), Arg::T(T::Tup(vec![T::Bool, T::Int(W::c(2))]))],
                _ => vec![Arg::W(W::c(1)), Arg::W(W::c(2)), Arg::W(W::c(3))],
            };
            let n = self.g.usize(1, 3);
            let names = if tr.is_none() { Some((self.nm("h"), self.nm("h"))) } else { None };
            let _ = names;
            for f in first.into_iter().take(n) {
                let mut gp = vec![];
                let mut a = vec![f];
                for p in &dgp[1..] {
                    match p.k {
                        PK::T(..) => a.push(Arg::T(T::P(gp.len()))),
                        _ => a.push(Arg::W(W::p(gp.len()))),
                    }
                    gp.push(Param { name: format!("G{}", gp.len()), k: p.k.clone() });
                }
                self.impl_(tr, gp, T::G(d, a));
            }
        }
    }
    fn impl_(&mut self, tr: Option<usize>, gp: Vec<Param>, target: T) {
        let i = self.p.impls.len();
        let base = self.p.units.len();
        self.gp = gp.clone();
        let mut methods = vec![];
        let mut units = vec![];
        let targs: Vec<Arg> = match tr {
            Some(k) => (0..self.p.traits[k].nargs).map(|_| Arg::T(if gp.is_empty() { self.g.pick(&[T::Bool, T::UInt(W::c(4))]).clone() } else { self.ty(1) })).collect(),
            None => vec![],
        };
        let sigs: Vec<(String, bool, Sig, Vec<Param>)> = match tr {
            Some(k) => self.p.traits[k]
                .methods
                .clone()
                .into_iter()
                .map(|(n, hs, s)| {
                    let s = Sig {
                        ps: s.ps.iter().map(|(n, t)| (n.clone(), sub_pty_self(t, &targs, &target))).collect(),
                        ret: st(&s.ret, &targs, Some(&target)),
                    };
                    (n, hs, s, vec![])
                })
                .collect(),
            None => {
                let n = self.g.usize(1, 2);
                (0..n)
                    .map(|m| {
                        let mut mg = vec![];
                        if self.g.chance(1, 3) {
                            mg = self.gparams("M", 1, 1, true);
                        }
                        self.gp = gp.clone();
                        self.gp.extend(mg.clone());
                        let all = self.gp.clone();
                        let mut ps = vec![("self".to_string(), PTy::V(target.clone()))];
                        let ex = self.g.usize(0, 1);
                        ps.extend(self.value_params(&all, gp.len(), ex));
                        let ret = self.ret_ty();
                        // same names across impls of the same type
                        let d = if let T::G(d, _) = &target { *d } else { 99 };
                        (format!("h{d}_{m}"), true, Sig { ps, ret }, mg)
                    })
                    .collect()
            }
        };
        for (n, hs, sig, mg) in sigs {
            self.gp = gp.clone();
            self.gp.extend(mg);
            self.scope = sig.ps.clone();
            self.fuel = 10;
            let Some(body) = self.tail(&sig.ret, 3) else {
                self.gp.clear();
                return;
            };
            methods.push(base + units.len());
            let inline = self.g.chance(1, 8);
            let w = self.g.bool();
            units.push(Unit { name: n, gp: self.gp.clone(), outer: gp.len(), sig, has_self: hs, body, inline, where_: w, turbo_ok: true, impl_: Some(i) });
        }
        self.gp.clear();
        self.p.units.extend(units);
        let where_ = self.g.bool();
        self.p.impls.push(Impl { tr: tr.map(|k| (k, targs)), gp, target, methods, where_ });
        self.p.order.push(('i', i));
    }
    pub fn prog(&mut self) {
        for _ in 0..self.g.usize(0, 2) {
            self.def();
        }
        let (nt, nf) = if self.traits { (self.g.usize(1, 3), self.g.usize(1, 3)) } else { (self.g.usize(0, 1), self.g.usize(2, 5)) };
        for k in 0..nt + nf {
            if k < nt {
                self.trait_();
            } else {
                self.func();
            }
        }
        if !self.p.defs.is_empty() {
            for d in 0..self.p.defs.len() {
                if self.g.chance(2, 3) {
                    self.def_impl(None, d);
                }
            }
            self.func();
        }
        // the concrete top: several instances of several units
        self.gp.clear();
        let np = self.g.usize(2, 4);
        let mut ps: Vec<(String, PTy)> = (0..np).map(|_| (self.nm("i"), PTy::V(self.ty(2)))).collect();
        ps.push(("c".into(), PTy::V(T::Bool)));
        self.scope = ps.clone();
        let mut outs: Vec<E> = vec![];
        let units = self.p.units.len();
        for u in (0..units).rev() {
            if outs.len() >= 7 {
                break;
            }
            for _ in 0..2 {
                let unit = self.p.units[u].clone();
                self.fuel = 8;
                let (ret, a) = match unit.impl_ {
                    None => {
                        let Some(a) = self.args_for(&unit.gp, vec![None; unit.gp.len()]) else { continue };
                        (st(&unit.sig.ret, &a, None), a)
                    }
                    Some(_) => {
                        let Some(a) = self.args_for(&unit.gp, vec![None; unit.gp.len()]) else { continue };
                        (st(&unit.sig.ret, &a, None), a)
                    }
                };
                if a.iter().any(|x| if let Arg::T(t) = x { tsize(t) > 9 } else { false }) {
                    continue;
                }
                let es: Option<Vec<E>> = unit.sig.ps.iter().map(|(_, t)| self.arg(&sub_pty(t, &a), 1)).collect();
                let Some(es) = es else { continue };
                let x = match unit.impl_ {
                    None => {
                        let has_fn = unit.sig.ps.iter().any(|p| matches!(p.1, PTy::F(..)));
                        let n = unit.gp.len();
                        let inferable = (0..n).all(|k| {
                            unit.sig.ps.iter().any(|(_, t)| match t {
                                PTy::V(t) => mentions_bare(t, k),
                                PTy::F(_, r) => mentions_bare(r, k),
                            }) && !matches!(unit.gp[k].k, PK::B)
                        });
                        if has_fn && !inferable {
                            continue;
                        }
                        e(&ret, K::Call(u, a, n > 0 && !has_fn && (!inferable || self.g.bool()), es))
                    }
                    Some(i) => {
                        if !unit.has_self {
                            continue;
                        }
                        let slf = st(&self.p.impls[i].target, &a, None);
                        let m = match &self.p.impls[i].tr {
                            Some(b) => {
                                let k = self.p.impls[i].methods.iter().position(|m| *m == u).unwrap();
                                M::Trait((b.0, b.1.iter().map(|x| sa(x, &a, None)).collect()), k)
                            }
                            None => M::Unit(u),
                        };
                        let ta = a[unit.outer..].to_vec();
                        let tb = !ta.is_empty();
                        e(&ret, K::MCall(m, slf, ta, tb, es))
                    }
                };
                outs.push(x);
            }
        }
        if outs.is_empty() {
            outs.push(e(&T::Bool, K::Var("c".into())));
        }
        outs.push(e(&T::Bool, K::Var("c".into())));
        let ret = T::Tup(outs.iter().map(|x| x.ty.clone()).collect());
        let names: Vec<(String, E)> = outs.into_iter().map(|x| (self.nm("o"), x)).collect();
        let tup = e(&ret, K::Tup(names.iter().map(|(n, x)| e(&x.ty, K::Var(n.clone()))).collect()));
        let body = e(&ret, K::Let(names, tup));
        self.p.top = self.p.units.len();
        self.p.units.push(Unit {
            name: "top".into(),
            gp: vec![],
            outer: 0,
            sig: Sig { ps, ret },
            has_self: false,
            body,
            inline: false,
            where_: false,
            turbo_ok: true,
            impl_: None,
        });
        let t = self.p.top;
        // items may come in any order
        if self.g.bool() {
            let mut o = std::mem::take(&mut self.p.order);
            self.g.shuffle(&mut o);
            self.p.order = o;
        }
        self.p.order.push(('u', t));
    }
}
pub fn sub_pty(t: &PTy, a: &[Arg]) -> PTy {
    match t {
        PTy::V(t) => PTy::V(st(t, a, None)),
        PTy::F(v, r) => PTy::F(v.iter().map(|t| st(t, a, None)).collect(), st(r, a, None)),
    }
}
pub fn sub_pty_self(t: &PTy, a: &[Arg], slf: &T) -> PTy {
    match t {
        PTy::V(t) => PTy::V(st(t, a, Some(slf))),
        PTy::F(v, r) => PTy::F(v.iter().map(|t| st(t, a, Some(slf))).collect(), st(r, a, Some(slf))),
    }
}
pub fn _u(x: &BigInt) -> Option<u64> {
    x.to_u64()
}
