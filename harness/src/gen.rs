//! Type-directed generator of well-typed Spade programs over the reference model in `lang`.
use crate::lang::*;
use crate::tape::Gen;
use num::{BigInt, One};

#[derive(Clone, Debug)]
pub struct Cfg {
    /// stdlib (conversions, Option, ...) may be used
    pub std: bool,
    /// zero-size types may appear
    pub zst: bool,
    pub max_w: u32,
    pub lambdas: bool,
    pub undef: bool,
    pub guards: bool,
    pub tricky_names: bool,
    pub budget: usize,
    pub inline_attr: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { std: true, zst: false, max_w: 100, lambdas: true, undef: true, guards: true, tricky_names: true, budget: 40, inline_attr: true }
    }
}

pub struct B<'a> {
    pub g: &'a mut Gen,
    pub p: Prog,
    pub cfg: Cfg,
    pub names: Vec<String>,
    pub tys: Vec<Ty>,
    pub scope: Vec<usize>,
    pub fuel: i64,
    pub next_id: usize,
    /// names must be unique in the function being built (needed when statements get reordered)
    pub unique: bool,
    pub nclk: usize,
}

const TRICKY: &[&str] = &[
    "always", "begin", "module", "signed", "output__", "logic", "assign", "posedge", "x_n1", "_e_1", "v1_n1", "casez", "integer", "genvar",
    "real", "time", "int_", "wire_", "s0_valid", "endmodule", "x_i", "clk_i", "rst_i", "initial_", "__", "_0", "generate", "table", "primitive",
    "v1_mut", "stall", "endcase", "priority", "unique0", "default_",
];

impl<'a> B<'a> {
    pub fn new(g: &'a mut Gen, cfg: Cfg) -> B<'a> {
        B { g, p: Prog::default(), cfg, names: vec![], tys: vec![], scope: vec![], fuel: 0, next_id: 0, unique: false, nclk: 0 }
    }
    pub fn id(&mut self) -> usize {
        self.next_id += 1;
        self.next_id
    }
    // ---------------------------------------------------------------- types
    pub fn width(&mut self) -> u32 {
        let m = self.cfg.max_w;
        let z = self.cfg.zst;
        match self.g.below(20) {
            0..=11 => self.g.range(1, 8) as u32,
            12..=14 => self.g.range(1, 3) as u32,
            15..=17 => self.g.range(9, 33) as u32,
            18 => self.g.range(34, 70) as u32,
            _ => {
                if z {
                    0
                } else {
                    self.g.range(60, 130) as u32
                }
            }
        }
        .min(m)
    }
    pub fn int_ty(&mut self) -> Ty {
        let w = self.width();
        if self.g.bool() { Ty::Int(w) } else { Ty::UInt(w) }
    }
    pub fn ty(&mut self, depth: u32) -> Ty {
        let from = self.g.used();
        let r = self.ty_(depth);
        self.g.span(from, r)
    }
    fn ty_(&mut self, depth: u32) -> Ty {
        let n = if depth == 0 { 6 } else { 15 };
        match self.g.below(n) {
            0 | 1 => Ty::Bool,
            2..=5 => self.int_ty(),
            6 | 7 => {
                let lo = if self.cfg.zst && self.g.chance(1, 4) { 0 } else { 2 };
                let n = self.g.usize(lo, 4);
                if n == 1 {
                    return Ty::Bool;
                }
                Ty::Tup((0..n).map(|_| self.ty(depth - 1)).collect())
            }
            8 | 9 => {
                let lo = if self.cfg.zst { 0 } else { 1 };
                let n = self.g.usize(lo, 5) as u32;
                Ty::Arr(Box::new(self.ty(depth - 1)), n)
            }
            10 if self.cfg.std => Ty::Opt(Box::new(self.ty(depth - 1))),
            _ => {
                if self.p.defs.is_empty() {
                    self.int_ty()
                } else {
                    Ty::Named(self.g.below(self.p.defs.len() as u64) as usize)
                }
            }
        }
    }
    /// distinct member names, in no particular alphabetical order
    fn field_names(&mut self, n: usize) -> Vec<String> {
        let mut v = vec!["f0", "b", "zq", "m_x", "a1", "data"];
        self.g.shuffle(&mut v);
        v.truncate(n);
        v.into_iter().map(|s| s.to_string()).collect()
    }
    pub fn defs(&mut self, max: usize) {
        let n = self.g.usize(0, max);
        let first = self.p.defs.len();
        for k in first..first + n {
            let kind = if self.g.bool() {
                let nv = *self.g.pick(&[2usize, 3, 1, 4, 5, 2, 3]);
                let mut vnames: Vec<String> = ["V0", "Zed", "Alpha", "M", "Other"].iter().map(|s| s.to_string()).collect();
                self.g.shuffle(&mut vnames);
                DefKind::Enum(
                    (0..nv)
                        .map(|v| {
                            let nf = self.g.weighted(&[3, 4, 2, 1]);
                            (vnames[v].clone(), self.field_names(nf).into_iter().map(|f| (f, self.ty(1))).collect())
                        })
                        .collect(),
                )
            } else {
                let nf = self.g.usize(1, 4);
                DefKind::Struct(self.field_names(nf).into_iter().map(|f| (f, self.ty(2))).collect())
            };
            self.p.defs.push(Def { name: format!("T{k}"), kind });
        }
        // keep the types of a sensible size
        for d in 0..self.p.defs.len() {
            let s = self.p.size(&Ty::Named(d));
            if s > 600 || (s == 0 && !self.cfg.zst) {
                self.p.defs[d].kind = DefKind::Struct(vec![("f0".into(), Ty::Bool), ("f1".into(), Ty::UInt(3))]);
            }
        }
    }
    /// enums of two variants, the first without a payload
    pub fn option_like(&mut self) {
        for _ in 0..self.g.usize(0, 2) {
            let nf = self.g.weighted(&[1, 6, 3, 1]);
            let payload: Vec<(String, Ty)> = self.field_names(nf).into_iter().map(|f| (f, self.ty(1))).collect();
            let first = if self.g.chance(1, 8) { self.field_names(1).into_iter().map(|f| (f, self.ty(0))).collect() } else { vec![] };
            let k = self.p.defs.len();
            self.p.defs.push(Def { name: format!("T{k}"), kind: DefKind::Enum(vec![("No".into(), first), ("Yes".into(), payload)]) });
        }
    }
    /// work the exhaustiveness check does on a wildcard of this type (it expands enums eagerly)
    pub fn wild_cost(&self, t: &Ty) -> f64 {
        match t {
            Ty::Bool | Ty::Int(_) | Ty::UInt(_) => 1.5,
            Ty::Tup(v) => v.iter().map(|t| self.wild_cost(t)).product(),
            Ty::Arr(t, n) => self.wild_cost(t).powi(*n as i32),
            Ty::Named(d) if matches!(self.p.defs[*d].kind, DefKind::Struct(_)) => self.p.fields(*d).iter().map(|f| self.wild_cost(&f.1)).product(),
            t => self.p.variants(t).iter().map(|v| v.1.iter().map(|f| self.wild_cost(&f.1)).product::<f64>()).sum(),
        }
    }
    pub fn pat_ty(&mut self, depth: u32) -> Ty {
        let t = self.small_ty(depth);
        if self.wild_cost(&t) <= 300.0 { t } else { Ty::UInt(2) }
    }
    pub fn small_ty(&mut self, depth: u32) -> Ty {
        for _ in 0..4 {
            let t = self.ty(depth);
            if self.p.size(&t) <= 300 {
                return t;
            }
        }
        Ty::Bool
    }
    // ---------------------------------------------------------------- variables
    pub fn fresh(&mut self, ty: &Ty, forbidden: &[String]) -> usize {
        let i = self.names.len();
        let mut name = format!("v{i}");
        if self.cfg.tricky_names {
            match self.g.below(12) {
                10 if !self.unique && !self.scope.is_empty() => {
                    let v = *self.g.pick(&self.scope.clone());
                    name = self.names[v].clone();
                }
                11 => {
                    let n = self.g.pick(TRICKY).to_string();
                    if !(self.unique && self.names.contains(&n)) {
                        name = n;
                    }
                }
                _ => {}
            }
        }
        if forbidden.contains(&name) || ["clk", "rst", "clk2"].contains(&name.as_str()) {
            name = format!("v{i}");
        }
        self.names.push(name);
        self.tys.push(ty.clone());
        i
    }
    pub fn bring(&mut self, v: usize) {
        let n = self.names[v].clone();
        let names = &self.names;
        self.scope.retain(|s| names[*s] != n);
        self.scope.push(v);
    }
    // ---------------------------------------------------------------- patterns
    /// generates a pattern and the variables it binds (not yet in scope)
    pub fn pat(&mut self, ty: &Ty, refutable: bool, depth: u32, vars: &mut Vec<usize>) -> Pat {
        let leaf = depth == 0;
        let r = self.g.below(10);
        if r < 2 || (leaf && !refutable && r < 4) {
            return Pat::Wild;
        }
        if r < 4 || (leaf && !refutable) {
            let f: Vec<String> = vars.iter().map(|v| self.names[*v].clone()).collect();
            let v = self.fresh(ty, &f);
            vars.push(v);
            return Pat::Bind(v);
        }
        if r == 4 && !leaf {
            let f: Vec<String> = vars.iter().map(|v| self.names[*v].clone()).collect();
            let v = self.fresh(ty, &f);
            vars.push(v);
            let p = self.pat(ty, refutable, depth - 1, vars);
            return Pat::At(v, Box::new(p));
        }
        let d = depth.saturating_sub(1);
        match ty {
            Ty::Bool if refutable => Pat::Bool(self.g.bool()),
            Ty::Int(n) if refutable && *n > 0 => Pat::Int(wrap_s(&BigInt::from(self.g.bits(*n as usize)), *n), self.g.chance(1, 3)),
            Ty::UInt(n) if refutable && *n > 0 => Pat::Int(self.g.bits(*n as usize).into(), self.g.chance(1, 3)),
            Ty::Tup(ts) if !leaf => Pat::Tup(ts.clone().iter().map(|t| self.pat(t, refutable, d, vars)).collect()),
            Ty::Arr(t, n) if !leaf && *n > 0 => Pat::Arr((0..*n).map(|_| self.pat(t, refutable, d, vars)).collect()),
            Ty::Named(k) if !leaf => match self.p.defs[*k].kind.clone() {
                DefKind::Struct(f) => {
                    let ps = f.iter().map(|(_, t)| self.pat(t, refutable, d, vars)).collect();
                    let st = self.style(f.len());
                    Pat::Struct(*k, ps, st)
                }
                DefKind::Enum(vs) => {
                    if !refutable && vs.len() > 1 {
                        return Pat::Wild;
                    }
                    let i = self.g.below(vs.len() as u64) as usize;
                    self.enum_pat(ty, i, refutable, d, vars)
                }
            },
            Ty::Opt(_) if refutable && !leaf => {
                let i = self.g.below(2) as usize;
                self.enum_pat(ty, i, refutable, d, vars)
            }
            _ => Pat::Wild,
        }
    }
    pub fn enum_pat(&mut self, ty: &Ty, i: usize, refutable: bool, d: u32, vars: &mut Vec<usize>) -> Pat {
        let fs = self.p.variants(ty)[i].1.clone();
        let ps: Vec<Pat> = fs.iter().map(|(_, t)| self.pat(t, refutable, d, vars)).collect();
        let st = self.style(fs.len());
        Pat::Enum(ty.clone(), i, ps, st)
    }
    pub fn style(&mut self, n: usize) -> ArgStyle {
        if n == 0 || !self.g.chance(1, 3) {
            ArgStyle::Pos
        } else {
            let mut p: Vec<usize> = (0..n).collect();
            self.g.shuffle(&mut p);
            ArgStyle::Named(p)
        }
    }
    // ---------------------------------------------------------------- expressions
    pub fn lit(&mut self, ty: &Ty) -> Ex {
        let v = self.p.gen_val(self.g, ty);
        let s = *self.g.pick(&[0u8, 1, 2, 3, 4]);
        ex(ty, K::Lit(v, s))
    }
    fn projections(&self, ty: &Ty) -> Vec<Ex> {
        let mut out = vec![];
        fn go(b: &B, e: Ex, ty: &Ty, d: u32, out: &mut Vec<Ex>) {
            if e.ty == *ty {
                out.push(e.clone());
            }
            if d == 0 {
                return;
            }
            match e.ty.clone() {
                Ty::Tup(ts) => {
                    for (i, t) in ts.iter().enumerate() {
                        go(b, ex(t, K::TupIdx(e.clone(), i)), ty, d - 1, out);
                    }
                }
                Ty::Named(k) => {
                    if let DefKind::Struct(f) = &b.p.defs[k].kind {
                        for (i, (_, t)) in f.iter().enumerate() {
                            go(b, ex(t, K::Field(e.clone(), i)), ty, d - 1, out);
                        }
                    }
                }
                Ty::Arr(t, n) if n > 0 => {
                    let w = idx_width(n);
                    for i in [0, n - 1] {
                        if i == 0 || n > 1 {
                            let idx = ex(&Ty::UInt(w), K::Lit(Val::I(i.into()), 0));
                            go(b, ex(&t, K::ArrIdx(e.clone(), idx)), ty, d - 1, out);
                        }
                    }
                }
                _ => {}
            }
        }
        for v in &self.scope {
            go(self, ex(&self.tys[*v], K::Var(*v)), ty, 2, &mut out);
        }
        out
    }
    pub fn leaf(&mut self, ty: &Ty) -> Ex {
        let pr = self.projections(ty);
        if !pr.is_empty() && self.g.below(10) < 8 {
            return self.g.pick(&pr).clone();
        }
        // otherwise depend on some input through a condition, so that results are not constant
        if pr.is_empty() && self.fuel > -30 && self.p.size(ty) > 0 && self.g.below(10) < 6 {
            self.fuel -= 1;
            if let Some(c) = self.cond_leaf() {
                let a = self.lit(ty);
                let b = self.lit(ty);
                return ex(ty, K::If(c, a, b));
            }
        }
        self.lit(ty)
    }
    /// a cheap condition on something in scope
    fn cond_leaf(&mut self) -> Option<Ex> {
        let bools = self.projections(&Ty::Bool);
        let mut ints = vec![];
        for v in self.scope.clone() {
            match self.tys[v].clone() {
                t @ (Ty::Int(_) | Ty::UInt(_)) => ints.push(ex(&t, K::Var(v))),
                Ty::Tup(ts) => {
                    for (i, t) in ts.iter().enumerate() {
                        if matches!(t, Ty::Int(n) | Ty::UInt(n) if *n > 0) {
                            ints.push(ex(t, K::TupIdx(ex(&Ty::Tup(ts.clone()), K::Var(v)), i)));
                        }
                    }
                }
                Ty::Named(k) => {
                    if let DefKind::Struct(f) = self.p.defs[k].kind.clone() {
                        for (i, (_, t)) in f.iter().enumerate() {
                            if matches!(t, Ty::Int(n) | Ty::UInt(n) if *n > 0) {
                                ints.push(ex(t, K::Field(ex(&Ty::Named(k), K::Var(v)), i)));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        ints.retain(|e| self.p.size(&e.ty) > 0);
        if !bools.is_empty() && (ints.is_empty() || self.g.bool()) {
            return Some(self.g.pick(&bools).clone());
        }
        if ints.is_empty() {
            return None;
        }
        let a = self.g.pick(&ints).clone();
        let b = self.lit(&a.ty.clone());
        let op = *self.g.pick(&[Op::Lt, Op::Gt, Op::Eq, Op::Ne, Op::Le, Op::Ge]);
        Some(ex(&Ty::Bool, K::Bin(op, a, b)))
    }
    pub fn e(&mut self, ty: &Ty, depth: u32) -> Ex {
        let from = self.g.used();
        let r = self.e_(ty, depth);
        self.g.span(from, r)
    }
    fn e_(&mut self, ty: &Ty, depth: u32) -> Ex {
        self.fuel -= 1;
        if self.p.size(ty) == 0 {
            return self.lit(ty);
        }
        if depth == 0 || self.fuel <= 0 {
            return self.leaf(ty);
        }
        let d = depth - 1;
        let r = self.g.below(100);
        if r < 12 {
            return self.leaf(ty);
        }
        // generic productions
        if r < 20 {
            let c = self.e(&Ty::Bool, d);
            let a = self.e(ty, d);
            let b = self.e(ty, d);
            return ex(ty, K::If(c, a, b));
        }
        if r < 30 {
            return self.gen_match(ty, d);
        }
        if r < 33 {
            return self.gen_block(ty, d);
        }
        if r < 40 {
            let c: Vec<usize> = (0..self.p.fns.len()).filter(|i| self.p.fns[*i].ret == *ty && self.p.fns[*i].kind == FnKind::Fn).collect();
            if !c.is_empty() {
                let f = *self.g.pick(&c);
                return self.gen_call(f, d);
            }
        }
        if r < 44 {
            // dynamic array index
            let n = self.g.range(1, 6) as u32;
            let at = Ty::Arr(Box::new(ty.clone()), n);
            if self.p.size(&at) < 400 {
                let a = self.e(&at, d);
                let i = self.e(&Ty::UInt(idx_width(n)), d.min(1));
                return ex(ty, K::ArrIdx(a, i));
            }
        }
        if r < 47 {
            // project out of a generated compound
            let cand: Vec<(usize, usize)> = self
                .p
                .defs
                .iter()
                .enumerate()
                .flat_map(|(k, df)| match &df.kind {
                    DefKind::Struct(f) => f.iter().enumerate().filter(|(_, x)| x.1 == *ty).map(|(i, _)| (k, i)).collect::<Vec<_>>(),
                    _ => vec![],
                })
                .collect();
            if !cand.is_empty() {
                let (k, i) = *self.g.pick(&cand);
                let s = self.e(&Ty::Named(k), d);
                return ex(ty, K::Field(s, i));
            }
            let o = self.small_ty(0);
            let (t, i) = if self.g.bool() { (Ty::Tup(vec![ty.clone(), o]), 0) } else { (Ty::Tup(vec![o, ty.clone()]), 1) };
            let s = self.e(&t, d);
            return ex(ty, K::TupIdx(s, i));
        }
        if r < 49 && self.cfg.lambdas {
            return self.gen_lambda(ty, d);
        }
        if r == 49 && self.cfg.undef {
            return ex(ty, K::Undef);
        }
        match ty {
            Ty::Bool => self.e_bool(d),
            Ty::Int(n) | Ty::UInt(n) => self.e_int(ty, *n, d),
            Ty::Tup(ts) => {
                let v = ts.iter().map(|t| self.e(t, d)).collect();
                ex(ty, K::Tup(v))
            }
            Ty::Arr(t, n) => self.e_arr(ty, t, *n, d),
            Ty::Opt(_) => {
                let i = if self.g.chance(1, 3) { 0 } else { 1 };
                self.e_enum(ty, i, d)
            }
            Ty::Named(k) => match self.p.defs[*k].kind.clone() {
                DefKind::Struct(f) => {
                    let v = f.iter().map(|(_, t)| self.e(t, d)).collect();
                    let st = self.style(f.len());
                    ex(ty, K::Struct(v, st))
                }
                DefKind::Enum(vs) => {
                    let i = self.g.below(vs.len() as u64) as usize;
                    self.e_enum(ty, i, d)
                }
            },
        }
    }
    fn e_enum(&mut self, ty: &Ty, i: usize, d: u32) -> Ex {
        let fs = self.p.variants(ty)[i].1.clone();
        let v: Vec<Ex> = fs.iter().map(|(_, t)| self.e(t, d)).collect();
        let st = self.style(fs.len());
        ex(ty, K::Enum(i, v, st))
    }
    pub fn gen_call(&mut self, f: usize, d: u32) -> Ex {
        let tys = self.p.fns[f].param_tys.clone();
        let ret = self.p.fns[f].ret.clone();
        let m = self.p.fns[f].method_of.is_some();
        let args: Vec<Ex> = tys.iter().map(|t| self.e(t, d.min(2))).collect();
        let st = self.style(args.len());
        ex(&ret, K::Call(if m { Callee::Method(f) } else { Callee::Fn(f) }, args, st))
    }
    fn eq_ok(&self, t: &Ty) -> bool {
        match t {
            Ty::Bool => true,
            Ty::Int(_) | Ty::UInt(_) => true,
            Ty::Tup(v) => v.len() != 1 && v.len() <= 4 && v.iter().all(|t| self.eq_ok(t)),
            Ty::Arr(t, n) => *n > 0 && self.eq_ok(t),
            Ty::Opt(t) => self.eq_ok(t),
            Ty::Named(_) => false,
        }
    }
    fn e_bool(&mut self, d: u32) -> Ex {
        match self.g.below(10) {
            0..=2 => {
                let t = self.int_ty();
                let op = *self.g.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge]);
                let a = self.e(&t, d);
                let b = self.e(&t, d);
                ex(&Ty::Bool, K::Bin(op, a, b))
            }
            3..=5 => {
                let mut t = self.small_ty(1);
                if !self.eq_ok(&t) {
                    t = self.int_ty();
                }
                let op = *self.g.pick(&[Op::Eq, Op::Ne]);
                let a = self.e(&t, d);
                let b = self.e(&t, d);
                ex(&Ty::Bool, K::Bin(op, a, b))
            }
            6..=8 => {
                let op = *self.g.pick(&[Op::LAnd, Op::LOr, Op::LXor]);
                let a = self.e(&Ty::Bool, d);
                let b = self.e(&Ty::Bool, d);
                ex(&Ty::Bool, K::Bin(op, a, b))
            }
            _ => {
                let a = self.e(&Ty::Bool, d);
                ex(&Ty::Bool, K::Un(UOp::Not, a))
            }
        }
    }
    fn mk(&self, like: &Ty, w: u32) -> Ty {
        if is_signed(like) { Ty::Int(w) } else { Ty::UInt(w) }
    }
    fn e_int(&mut self, ty: &Ty, n: u32, d: u32) -> Ex {
        if n == 0 {
            return self.leaf(ty);
        }
        let s = is_signed(ty);
        for _ in 0..3 {
            match self.g.below(if self.cfg.std { 17 } else { 11 }) {
                0 | 1 if n >= 2 => {
                    let t = self.mk(ty, n - 1);
                    let op = *self.g.pick(&[Op::Add, Op::Sub]);
                    let a = self.e(&t, d);
                    let b = self.e(&t, d);
                    return ex(ty, K::Bin(op, a, b));
                }
                2 if n >= 2 => {
                    let k = self.g.range(1, n as u64 - 1) as u32;
                    let (ta, tb) = (self.mk(ty, k), self.mk(ty, n - k));
                    let a = self.e(&ta, d);
                    let b = self.e(&tb, d);
                    return ex(ty, K::Bin(Op::Mul, a, b));
                }
                3 | 4 => {
                    let op = *self.g.pick(&[Op::And, Op::Or, Op::Xor]);
                    let a = self.e(ty, d);
                    let b = self.e(ty, d);
                    return ex(ty, K::Bin(op, a, b));
                }
                5 => {
                    let op = *self.g.pick(&[Op::Shl, Op::Shr, Op::Ashr, Op::WShl, Op::WShr]);
                    let a = self.e(ty, d);
                    let b = if self.g.bool() {
                        let m = if s { (n as u64).min((1u64 << (n - 1).min(20)) - 1) } else { (n as u64).min((1u64 << n.min(20)) - 1) };
                        let v = self.g.below(m + 1);
                        ex(ty, K::Lit(Val::I(v.into()), 0))
                    } else {
                        self.e(ty, d)
                    };
                    return ex(ty, K::Bin(op, a, b));
                }
                6 => {
                    let op = *self.g.pick(&[Op::WAdd, Op::WSub, Op::WMul]);
                    let a = self.e(ty, d);
                    let b = self.e(ty, d);
                    return ex(ty, K::Bin(op, a, b));
                }
                7 => {
                    let op = *self.g.pick(&[Op::Div, Op::Mod]);
                    let maxk = if s { n.saturating_sub(1) } else { n };
                    if maxk == 0 {
                        continue;
                    }
                    let k = self.g.below(maxk as u64) as u32;
                    let a = self.e(ty, d);
                    let b = ex(ty, K::Lit(Val::I(BigInt::one() << k), self.g.below(2) as u8));
                    return ex(ty, K::Bin(op, a, b));
                }
                8 => {
                    let a = self.e(ty, d);
                    return ex(ty, K::Un(UOp::BNot, a));
                }
                9 if s => {
                    let a = self.e(ty, d);
                    let op = *self.g.pick(&[UOp::Neg, UOp::WNeg]);
                    return ex(ty, K::Un(op, a));
                }
                11 => {
                    let w = n + self.g.range(0, 6) as u32;
                    let t = self.mk(ty, w);
                    let a = self.e(&t, d);
                    let c = if self.g.bool() { Conv::Trunc } else { Conv::TruncMethod };
                    return ex(ty, K::Conv(c, a));
                }
                12 => {
                    let w = self.g.range(1, n as u64) as u32;
                    let t = self.mk(ty, w);
                    let a = self.e(&t, d);
                    return ex(ty, K::Conv(if s { Conv::Sext } else { Conv::Zext }, a));
                }
                13 => {
                    let (t, c) = if s { (Ty::UInt(n), Conv::AsInt) } else { (Ty::Int(n), Conv::AsUint) };
                    let a = self.e(&t, d);
                    return ex(ty, K::Conv(c, a));
                }
                14 => {
                    if s && n >= 2 && self.g.bool() {
                        let a = self.e(&Ty::UInt(n - 1), d);
                        return ex(ty, K::Conv(Conv::ToInt, a));
                    }
                    let t = Ty::Arr(Box::new(Ty::Bool), n);
                    let a = self.e(&t, d);
                    return ex(ty, K::Conv(if s { Conv::BitsAsInt } else { Conv::BitsAsUint }, a));
                }
                15 if n >= 2 => {
                    let k = self.g.range(1, n as u64 - 1) as u32;
                    let (ta, tb) = (self.mk(ty, k), self.mk(ty, n - k));
                    let a = self.e(&ta, d);
                    let b = self.e(&tb, d);
                    return ex(ty, K::NumConcat(a, b));
                }
                16 if n == 1 && !s => {
                    let a = self.e(&Ty::Bool, d);
                    return ex(ty, K::Conv(Conv::BoolAsUint, a));
                }
                _ => {}
            }
        }
        self.leaf(ty)
    }
    fn e_arr(&mut self, ty: &Ty, t: &Ty, n: u32, d: u32) -> Ex {
        match self.g.below(6) {
            0 => {
                let a = self.e(t, d);
                ex(ty, K::ArrRep(a, n))
            }
            1 | 2 if n > 0 => {
                let extra = self.g.range(0, 3) as u32;
                let lo = self.g.below(extra as u64 + 1) as u32;
                let src = Ty::Arr(Box::new(t.clone()), n + extra);
                if self.p.size(&src) > 400 {
                    return self.leaf(ty);
                }
                let a = self.e(&src, d);
                let hi = lo + n;
                let l = if lo == 0 && self.g.bool() { None } else { Some(lo) };
                let h = if hi == n + extra && self.g.bool() { None } else { Some(hi) };
                ex(ty, K::ArrRange(a, l, h))
            }
            3 if *t == Ty::Bool && n > 0 => {
                if self.cfg.std && self.g.bool() {
                    let it = if self.g.bool() { Ty::Int(n) } else { Ty::UInt(n) };
                    let a = self.e(&it, d);
                    ex(ty, K::Conv(Conv::AsBits, a))
                } else {
                    let op = *self.g.pick(&[Op::And, Op::Or, Op::Xor]);
                    let a = self.e(ty, d);
                    let b = self.e(ty, d);
                    ex(ty, K::Bin(op, a, b))
                }
            }
            _ => {
                let v = (0..n).map(|_| self.e(t, d)).collect();
                ex(ty, K::Arr(v))
            }
        }
    }
    fn gen_lambda(&mut self, ty: &Ty, d: u32) -> Ex {
        let n = self.g.usize(1, 2);
        let mut args = vec![];
        let save = self.scope.clone();
        let mut vars = vec![];
        let mut pend = vec![];
        for _ in 0..n {
            let t = self.small_ty(1);
            let a = self.e(&t, d.min(1));
            let dp = self.g.below(2) as u32;
            let p = if self.wild_cost(&t) <= 300.0 { self.pat(&t, false, dp, &mut vars) } else { Pat::Wild };
            args.push((p, a));
        }
        pend.append(&mut vars);
        for v in pend {
            self.bring(v);
        }
        let body = self.e(ty, d);
        self.scope = save;
        ex(ty, K::Lambda(args, body))
    }
    pub fn gen_match(&mut self, ty: &Ty, d: u32) -> Ex {
        // prefer scrutinising something in scope
        let st = if !self.scope.is_empty() && self.g.bool() {
            let v = *self.g.pick(&self.scope.clone());
            let t = self.tys[v].clone();
            let t = if self.g.chance(1, 4) {
                let o = self.small_ty(1);
                Ty::Tup(vec![t, o])
            } else {
                t
            };
            if self.wild_cost(&t) <= 300.0 { t } else { Ty::Bool }
        } else {
            self.pat_ty(2)
        };
        let s = self.e(&st, d.min(1));
        let save = self.scope.clone();
        if self.g.chance(1, 6) {
            let mut vars = vec![];
            let p = self.pat(&st, true, 2, &mut vars);
            for v in vars {
                self.bring(v);
            }
            let a = self.e(ty, d);
            self.scope = save.clone();
            let b = self.e(ty, d);
            return ex(ty, K::IfLet(p, s, a, b));
        }
        let mut arms = vec![];
        let n = self.g.usize(0, 4);
        for _ in 0..n {
            let mut vars = vec![];
            let p = self.pat(&st, true, 3, &mut vars);
            for v in vars {
                self.bring(v);
            }
            let gd = if self.cfg.guards && self.g.chance(1, 5) { Some(self.e(&Ty::Bool, d.min(1))) } else { None };
            let r = self.e(ty, d);
            arms.push((p, gd, r));
            self.scope = save.clone();
        }
        if self.p.is_enum(&st) && self.g.chance(2, 3) {
            let nv = self.p.variants(&st).len();
            let mut order: Vec<usize> = (0..nv).collect();
            self.g.shuffle(&mut order);
            for i in order {
                let mut vars = vec![];
                let p = self.enum_pat(&st, i, false, 1, &mut vars);
                for v in vars {
                    self.bring(v);
                }
                let r = self.e(ty, d);
                arms.push((p, None, r));
                self.scope = save.clone();
            }
        } else {
            let mut vars = vec![];
            let p = self.pat(&st, false, 1, &mut vars);
            for v in vars {
                self.bring(v);
            }
            let r = self.e(ty, d);
            arms.push((p, None, r));
            self.scope = save.clone();
        }
        ex(ty, K::Match(s, arms))
    }
    pub fn gen_block(&mut self, ty: &Ty, d: u32) -> Ex {
        let save = self.scope.clone();
        let n = self.g.usize(1, 2);
        let mut sts = vec![];
        for _ in 0..n {
            sts.push(self.gen_let(d));
        }
        let r = self.e(ty, d);
        self.scope = save;
        ex(ty, K::Block(sts, r))
    }
    pub fn gen_let(&mut self, d: u32) -> St {
        let from = self.g.used();
        let r = self.gen_let_(d);
        self.g.span(from, r)
    }
    fn gen_let_(&mut self, d: u32) -> St {
        let t = self.small_ty(2);
        let e = self.e(&t, d);
        let mut vars = vec![];
        let p = if self.g.chance(1, 4) && self.wild_cost(&t) <= 300.0 {
            self.pat(&t, false, 2, &mut vars)
        } else {
            let v = self.fresh(&t, &[]);
            vars.push(v);
            Pat::Bind(v)
        };
        for v in vars {
            self.bring(v);
        }
        let ann = self.g.bool();
        St::Let(p, t, ann, e)
    }
    // ---------------------------------------------------------------- functions
    pub fn begin_func(&mut self, params: &[Ty]) -> Vec<usize> {
        self.names.clear();
        self.tys.clear();
        self.scope.clear();
        let mut vs = vec![];
        for t in params {
            let f: Vec<String> = self.names.clone();
            let v = self.fresh(t, &f);
            vs.push(v);
        }
        for v in &vs {
            self.scope.push(*v);
        }
        vs
    }
    pub fn gen_fn(&mut self, name: &str, ret: Option<Ty>, method: bool) -> usize {
        let np = self.g.usize(if name == "top" { 1 } else { 0 }, 4);
        let mut tys: Vec<Ty> = (0..np).map(|_| self.small_ty(2)).collect();
        let structs: Vec<usize> = (0..self.p.defs.len()).collect();
        let mut method_of = None;
        if method && !structs.is_empty() {
            let d = *self.g.pick(&structs);
            tys.insert(0, Ty::Named(d));
            method_of = Some(d);
        }
        let obs = name == "top" && ret.is_none() && self.g.chance(2, 3);
        let mut ret = match ret {
            Some(r) => r,
            None => self.small_ty(2),
        };
        let ps = self.begin_func(&tys);
        if method_of.is_some() {
            self.names[ps[0]] = "self".into();
        }
        self.fuel = self.cfg.budget as i64;
        let nl = self.g.usize(0, 4);
        let sts: Vec<St> = (0..nl).map(|_| self.gen_let(3)).collect();
        let mut r = self.e(&ret, 4);
        if obs && !sts.is_empty() {
            (ret, r) = self.observe();
        }
        // `gen if` may only be the result of a unit, and such a unit only exists inlined in its callers
        if name != "top" && self.p.size(&ret) > 0 && self.g.chance(1, 6) {
            let (t, v) = *self.g.pick(&[("1 == 1", true), ("2 < 1", false), ("3 * 2 == 6", true), ("7 / 2 != 3", false), ("5 % 3 == 2 && 1 < 2", true)]);
            let o = self.e(&ret, 2);
            r = ex(&ret, if v { K::GenIf(t.to_string(), v, r, o) } else { K::GenIf(t.to_string(), v, o, r) });
        }
        let mut attrs = String::new();
        if self.cfg.inline_attr && name != "top" && self.g.chance(1, 4) {
            attrs.push_str("#[inline]\n");
        }
        self.p.fns.push(Func {
            name: name.into(),
            kind: FnKind::Fn,
            clocks: vec![],
            params: ps,
            param_tys: tys,
            ret,
            body: (sts, r),
            var_names: self.names.clone(),
            var_tys: self.tys.clone(),
            method_of,
            attrs,
            depth: None,
        });
        self.p.fns.len() - 1
    }
    /// a combinational program: some helpers and a top function
    pub fn comb_prog(&mut self) {
        self.defs(3);
        let nf = self.g.usize(0, 3);
        for k in 0..nf {
            let m = self.g.chance(1, 3);
            let b = self.cfg.budget;
            self.cfg.budget = 15;
            self.gen_fn(&format!("f{k}"), None, m);
            self.cfg.budget = b;
        }
        let t = self.gen_fn("top", None, false);
        self.p.top = t;
    }
}

pub fn ex(t: &Ty, k: K) -> Ex {
    Ex { ty: t.clone(), k: Box::new(k) }
}

// ------------------------------------------------------------------------------------ sequential
impl<'a> B<'a> {
    fn seq_ty(&mut self) -> Ty {
        for _ in 0..6 {
            let t = self.small_ty(2);
            if self.p.size(&t) > 0 && self.p.size(&t) < 120 {
                return t;
            }
        }
        Ty::UInt(3)
    }
    /// a result made of several values in scope, so that what was computed shows at the output
    fn observe(&mut self) -> (Ty, Ex) {
        self.observe_n(3)
    }
    fn observe_n(&mut self, max: usize) -> (Ty, Ex) {
        let mut c: Vec<usize> = self.scope.clone();
        c.reverse();
        c.retain(|v| self.p.size(&self.tys[*v]) > 0 && self.p.size(&self.tys[*v]) < 150);
        let n = if max > 3 { max } else { self.g.usize(1, max) };
        let mut tys = vec![];
        let mut es = vec![];
        for v in c.into_iter().take(n) {
            tys.push(self.tys[v].clone());
            es.push(ex(&self.tys[v].clone(), K::Var(v)));
        }
        let t = self.seq_ty();
        es.push(self.e(&t, 3));
        tys.push(t);
        if es.len() == 1 {
            return (tys.pop().unwrap(), es.pop().unwrap());
        }
        let t = Ty::Tup(tys);
        (t.clone(), ex(&t, K::Tup(es)))
    }
    fn const_lit(&mut self, ty: &Ty) -> Ex {
        let v = self.p.gen_val(self.g, ty);
        ex(ty, K::Lit(v, 0))
    }
    fn gen_reg(&mut self, vars: &[usize], pat: Pat, ty: Ty, extra: &[usize], nclk: usize) -> Reg {
        // the register's own names, and names that are only safe to use sequentially
        let save = self.scope.clone();
        for v in vars.iter().chain(extra) {
            if !self.scope.contains(v) {
                self.bring(*v);
            }
        }
        let value = self.e(&ty, 3);
        let reset = if self.g.chance(2, 3) {
            let c = if let Some(r) = self.rst_var() {
                if self.g.chance(3, 4) { ex(&Ty::Bool, K::Var(r)) } else { self.e(&Ty::Bool, 1) }
            } else {
                self.e(&Ty::Bool, 2)
            };
            let v = if self.g.chance(2, 3) { self.const_lit(&ty) } else { self.e(&ty, 1) };
            Some((c, v))
        } else {
            None
        };
        let initial = if self.g.chance(1, 2) { Some(self.const_lit(&ty)) } else { None };
        self.scope = save;
        let id = self.id();
        let clk = self.g.below(nclk as u64) as usize;
        Reg { id, pat, ty, ann: true, clk, reset, initial, value, reset_first: self.g.bool() }
    }
    fn rst_var(&self) -> Option<usize> {
        self.scope.iter().copied().find(|v| self.names[*v] == "rst")
    }
    /// an entity with registers, instances, memories, asserts and forward-declared names
    pub fn gen_entity(&mut self, name: &str, nclk: usize) -> usize {
        let np = self.g.usize(1, 3);
        let mut tys: Vec<Ty> = (0..np).map(|_| self.seq_ty()).collect();
        let has_rst = self.g.chance(3, 4);
        if has_rst {
            tys.insert(0, Ty::Bool);
        }
        let ps = self.begin_func(&tys);
        if has_rst {
            self.names[ps[0]] = "rst".into();
        }
        self.unique = true;
        let clocks: Vec<String> = ["clk", "clk2", "clk3"][..nclk].iter().map(|s| s.to_string()).collect();
        self.fuel = self.cfg.budget as i64;
        let mut sts: Vec<St> = vec![];
        // (vars, pattern, type, is register) declared but not defined yet
        let mut pending: Vec<(usize, Ty, bool)> = vec![];
        let n = self.g.usize(2, 7);
        let mut k = 0;
        let mut last = None;
        while k < n || !pending.is_empty() {
            k += 1;
            let from = self.g.used();
            if let Some(l) = last {
                self.g.spans.push((l, from));
            }
            last = Some(from);
            let seq_only: Vec<usize> = pending.iter().filter(|x| !x.2).map(|x| x.0).collect();
            let must = k > n;
            if must || (!pending.is_empty() && self.g.chance(1, 3)) {
                let i = self.g.below(pending.len() as u64) as usize;
                let (v, ty, is_reg) = pending.remove(i);
                self.fuel = self.fuel.max(8);
                if is_reg {
                    let r = self.gen_reg(&[v], Pat::Bind(v), ty, &seq_only, nclk);
                    sts.push(St::Reg(r));
                } else {
                    let e = self.e(&ty, 3);
                    sts.push(St::Let(Pat::Bind(v), ty, true, e));
                }
                if !self.scope.contains(&v) {
                    self.bring(v);
                }
                continue;
            }
            self.fuel = self.fuel.max(8);
            match self.g.below(12) {
                0 | 1 => {
                    let s = self.gen_let(3);
                    sts.push(s);
                }
                2 => {
                    // forward declaration of one or two names
                    let c = self.g.usize(1, 2);
                    let mut vs = vec![];
                    for _ in 0..c {
                        let is_reg = self.g.bool();
                        let ty = if self.g.bool() { Ty::Bool } else { self.int_ty() };
                        let f: Vec<String> = self.names.clone();
                        let v = self.fresh(&ty, &f);
                        vs.push(v);
                        if is_reg {
                            self.bring(v);
                        }
                        pending.push((v, ty, is_reg));
                    }
                    sts.push(St::Decl(vs));
                }
                3..=7 => {
                    let ty = self.seq_ty();
                    let mut vars = vec![];
                    let pat = if self.g.chance(1, 3) && self.wild_cost(&ty) <= 300.0 {
                        self.pat(&ty, false, 2, &mut vars)
                    } else {
                        let f = self.names.clone();
                        let v = self.fresh(&ty, &f);
                        vars.push(v);
                        Pat::Bind(v)
                    };
                    let r = self.gen_reg(&vars, pat, ty, &seq_only, nclk);
                    sts.push(St::Reg(r));
                    for v in vars {
                        self.bring(v);
                    }
                }
                8 | 9 => {
                    let c: Vec<usize> = (0..self.p.fns.len()).filter(|i| self.p.fns[*i].kind == FnKind::Entity && self.p.fns[*i].clocks.len() <= nclk).collect();
                    if c.is_empty() {
                        continue;
                    }
                    let ent = *self.g.pick(&c);
                    let tys = self.p.fns[ent].param_tys.clone();
                    let args: Vec<Ex> = tys.iter().map(|t| self.e(t, 2)).collect();
                    let style = self.style(args.len());
                    let ty = self.p.fns[ent].ret.clone();
                    let mut vars = vec![];
                    let pat = if self.g.chance(1, 4) && self.wild_cost(&ty) <= 300.0 {
                        self.pat(&ty, false, 1, &mut vars)
                    } else {
                        let f = self.names.clone();
                        let v = self.fresh(&ty, &f);
                        vars.push(v);
                        Pat::Bind(v)
                    };
                    let id = self.id();
                    let ann = self.g.bool();
                    sts.push(St::Inst { id, pat, ty, ann, ent, args, style });
                    for v in vars {
                        self.bring(v);
                    }
                }
                10 if self.cfg.std => {
                    let elem = self.seq_ty();
                    let aw = self.g.range(1, 3) as u32;
                    let size = *self.g.pick(&[1u32 << aw, (1 << aw) - 1, (1 << aw)]);
                    if size < 2 {
                        continue;
                    }
                    let nw = self.g.usize(1, 2);
                    let save = self.scope.clone();
                    for v in &seq_only {
                        self.bring(*v);
                    }
                    let writes = (0..nw)
                        .map(|_| {
                            let a = self.e(&Ty::Bool, 1);
                            let b = self.e(&Ty::UInt(aw), 1);
                            let c = self.e(&elem, 2);
                            (a, b, c)
                        })
                        .collect();
                    self.scope = save;
                    let init = if self.g.bool() { Some((0..size).map(|_| self.p.gen_val(self.g, &elem)).collect()) } else { None };
                    let id = self.id();
                    sts.push(St::Mem { id, elem: elem.clone(), size, addr_w: aw, init, writes });
                    for _ in 0..self.g.usize(1, 2) {
                        let addr = self.e(&Ty::UInt(aw), 1);
                        let f = self.names.clone();
                        let v = self.fresh(&elem, &f);
                        sts.push(St::MemRead { var: v, ty: elem.clone(), mem: id, addr });
                        self.bring(v);
                    }
                }
                _ => {
                    let cond = self.e(&Ty::Bool, 2);
                    let id = self.id();
                    sts.push(St::Assert { id, cond });
                }
            }
        }
        self.fuel = self.fuel.max(12);
        let (ret, r) = if self.g.chance(3, 4) { self.observe() } else { let t = self.seq_ty(); let e = self.e(&t, 3); (t, e) };
        self.unique = false;
        let mut attrs = String::new();
        if self.cfg.inline_attr && name != "top" && self.g.chance(1, 4) {
            attrs.push_str("#[inline]\n");
        }
        self.p.fns.push(Func {
            name: name.into(),
            kind: FnKind::Entity,
            clocks,
            params: ps,
            param_tys: tys,
            ret,
            body: (sts, r),
            var_names: self.names.clone(),
            var_tys: self.tys.clone(),
            method_of: None,
            attrs,
            depth: None,
        });
        self.p.fns.len() - 1
    }
    /// memories driven straight from the inputs, so that collisions and read-backs are frequent
    pub fn mem_prog(&mut self) {
        self.defs(1);
        let aw = self.g.range(1, 3) as u32;
        let size = *self.g.pick(&[1u32 << aw, (1 << aw) - 1, 1 << aw]);
        let size = size.max(2);
        let elem = match self.g.below(4) {
            0 => Ty::Bool,
            1 => Ty::UInt(1),
            2 => Ty::UInt(self.g.range(2, 9) as u32),
            _ => self.seq_ty(),
        };
        let nw = self.g.usize(1, 4);
        let nr = self.g.usize(1, 2);
        let mut tys = vec![];
        for _ in 0..nw {
            tys.extend([Ty::Bool, Ty::UInt(aw), elem.clone()]);
        }
        tys.extend((0..nr).map(|_| Ty::UInt(aw)));
        let ps = self.begin_func(&tys);
        self.unique = true;
        let var = |b: &B, i: usize| ex(&b.tys[i].clone(), K::Var(i));
        let mut writes = vec![];
        for w in 0..nw {
            writes.push((var(self, ps[3 * w]), var(self, ps[3 * w + 1]), var(self, ps[3 * w + 2])));
        }
        let init = if self.g.bool() { Some((0..size).map(|_| self.p.gen_val(self.g, &elem)).collect()) } else { None };
        let id = self.id();
        let mut sts = vec![St::Mem { id, elem: elem.clone(), size, addr_w: aw, init, writes }];
        let mut outs = vec![];
        for r in 0..nr {
            let f = self.names.clone();
            let v = self.fresh(&elem, &f);
            sts.push(St::MemRead { var: v, ty: elem.clone(), mem: id, addr: var(self, ps[3 * nw + r]) });
            outs.push(v);
        }
        let (ret, r) = if outs.len() == 1 {
            (elem.clone(), var(self, outs[0]))
        } else {
            let t = Ty::Tup(outs.iter().map(|_| elem.clone()).collect());
            (t.clone(), ex(&t, K::Tup(outs.iter().map(|o| var(self, *o)).collect())))
        };
        self.unique = false;
        self.p.fns.push(Func {
            name: "top".into(),
            kind: FnKind::Entity,
            clocks: vec!["clk".into()],
            params: ps,
            param_tys: tys,
            ret,
            body: (sts, r),
            var_names: self.names.clone(),
            var_tys: self.tys.clone(),
            method_of: None,
            attrs: String::new(),
            depth: None,
        });
        self.p.top = self.p.fns.len() - 1;
    }
    pub fn seq_prog(&mut self) {
        self.defs(2);
        let b = self.cfg.budget;
        for k in 0..self.g.usize(0, 2) {
            self.cfg.budget = 12;
            let m = self.g.chance(1, 4);
            self.gen_fn(&format!("f{k}"), None, m);
        }
        for k in 0..self.g.usize(0, 2) {
            self.cfg.budget = 20;
            self.gen_entity(&format!("e{k}"), 1);
        }
        self.cfg.budget = b;
        let nclk = if self.g.chance(1, 4) { 2 } else { 1 };
        let t = self.gen_entity("top", nclk);
        self.p.top = t;
    }
}

// ------------------------------------------------------------------------------------ pipelines
struct PV {
    name: String,
    ty: Ty,
    /// first stage it can be used in
    from: usize,
    /// variable id in each stage
    ids: std::collections::BTreeMap<usize, usize>,
}
impl<'a> B<'a> {
    fn pipe_var(&mut self, name: &str, ty: &Ty) -> usize {
        self.names.push(name.to_string());
        self.tys.push(ty.clone());
        self.names.len() - 1
    }
    fn raw(&self, text: String, v: usize) -> Ex {
        ex(&self.tys[v].clone(), K::Raw(text, v))
    }
    /// A pipeline. Every value gets one variable per stage in the reference program; `Hidden` register
    /// statements say how values move, the printed program only has stage separators.
    /// ctl: concentrate on stage conditions, stage.valid, stage.ready and references between stages
    pub fn gen_pipe(&mut self, name: &str, stalls: bool, ctl: bool) -> usize {
        let depth = if ctl { self.g.usize(2, 5) } else { self.g.usize(1, 5) };
        let np = if ctl { self.g.usize(2, 4) } else { self.g.usize(1, 3) };
        let tys: Vec<Ty> = (0..np).map(|i| if ctl && i != 1 { Ty::Bool } else { self.seq_ty() }).collect();
        let ps = self.begin_func(&tys);
        self.unique = true;
        self.fuel = self.cfg.budget as i64;
        let mut vars: Vec<PV> = ps
            .iter()
            .map(|p| PV { name: self.names[*p].clone(), ty: self.tys[*p].clone(), from: 0, ids: [(0, *p)].into_iter().collect() })
            .collect();
        let valid: Vec<usize> = (0..=depth).map(|k| self.pipe_var(&format!("#valid{k}"), &Ty::Bool)).collect();
        let ready: Vec<usize> = (0..=depth).map(|k| self.pipe_var(&format!("#ready{k}"), &Ty::Bool)).collect();
        // values promised to exist in a later stage: (stage, name, type, id)
        let mut promised: Vec<(usize, String, Ty, usize)> = vec![];
        let mut sts: Vec<St> = vec![];
        let mut conds: Vec<Option<Ex>> = vec![];
        // hidden movement: (from id, to id, boundary)
        let mut moves: Vec<(usize, usize, usize)> = vec![];
        let labels: Vec<bool> = (0..=depth).map(|_| self.g.chance(1, 3)).collect();
        // stages without any statement may be written with a repetition; their separators carry no condition
        let mut skip_until = 0;
        for k in 0..=depth {
            // what is in scope: everything that is available in this stage
            let enter: Vec<usize> = vars.iter().filter(|v| v.from <= k).map(|v| v.ids[&k]).collect();
            self.scope = enter.clone();
            if k >= skip_until {
                if labels[k] {
                    sts.push(St::Text(format!("'lbl{k}")));
                }
                let mut todo: Vec<(String, Ty, usize)> = promised.iter().filter(|p| p.0 == k).map(|p| (p.1.clone(), p.2.clone(), p.3)).collect();
                let n = self.g.usize(0, 3) + todo.len() + if ctl { 1 } else { 0 } + if ctl && k == depth { 6 } else { 0 };
                for nth in 0..n {
                    self.fuel = self.fuel.max(8);
                    if let Some((nm, ty, id)) = todo.pop() {
                        // depends on values from earlier stages only
                        // (outputs of nested pipelines may depend on this very value)
                        let save = self.scope.clone();
                        self.scope = vars.iter().filter(|v| v.from < k).map(|v| v.ids[&k]).collect();
                        let e = if k == 0 { self.lit(&ty) } else { self.e(&ty, 2) };
                        self.scope = save;
                        sts.push(St::Let(Pat::Bind(id), ty.clone(), true, e));
                        self.scope.push(id);
                        vars.push(PV { name: nm, ty, from: k, ids: [(k, id)].into_iter().collect() });
                        continue;
                    }
                    let mut new: Vec<usize> = vec![];
                    let what = if !ctl {
                        self.g.below(12)
                    } else if k == depth {
                        if nth == 0 { 8 } else { 6 }
                    } else if nth == 0 {
                        8
                    } else {
                        *self.g.pick(&[8, 6, 0, 7])
                    };
                    match what {
                        0..=3 => {
                            let t = self.seq_ty();
                            let e = self.e(&t, 3);
                            let mut vs = vec![];
                            let p = if self.g.chance(1, 4) && self.wild_cost(&t) <= 300.0 {
                                self.pat(&t, false, 1, &mut vs)
                            } else {
                                let f = self.names.clone();
                                let v = self.fresh(&t, &f);
                                vs.push(v);
                                Pat::Bind(v)
                            };
                            let ann = self.g.bool();
                            sts.push(St::Let(p, t, ann, e));
                            new = vs;
                        }
                        4 | 5 => {
                            // explicit register inside a stage
                            let ty = self.seq_ty();
                            let f = self.names.clone();
                            let v = self.fresh(&ty, &f);
                            let r = self.gen_reg(&[v], Pat::Bind(v), ty, &[], 1);
                            sts.push(St::Reg(r));
                            new.push(v);
                        }
                        6 => {
                            // a value as it is in another stage
                            let mut c: Vec<(usize, usize)> = vec![];
                            for (i, v) in vars.iter().enumerate() {
                                for j in v.from..=depth {
                                    if j != k {
                                        c.push((i, j));
                                    }
                                }
                            }
                            if c.is_empty() {
                                continue;
                            }
                            let bools: Vec<(usize, usize)> = c.iter().copied().filter(|x| vars[x.0].ty == Ty::Bool && vars[x.0].from > 0).collect();
                            let here: Vec<(usize, usize)> = bools.iter().copied().filter(|x| vars[x.0].from == x.1).collect();
                            let (i, j) = if ctl && !here.is_empty() && self.g.chance(2, 3) {
                                here[nth % here.len()]
                            } else if ctl && !bools.is_empty() {
                                *self.g.pick(&bools)
                            } else {
                                *self.g.pick(&c)
                            };
                            // make sure the variable has an id in that stage (filled in when it is reached)
                            let (nm, ty) = (vars[i].name.clone(), vars[i].ty.clone());
                            let id = match vars[i].ids.get(&j) {
                                Some(x) => *x,
                                None => {
                                    let id = self.pipe_var(&nm, &ty);
                                    vars[i].ids.insert(j, id);
                                    id
                                }
                            };
                            let r = if labels[j] && !(j >= k && skip_until > j) && self.g.bool() { format!("lbl{j}") } else { format!("{:+}", j as i64 - k as i64) };
                            let e = self.raw(format!("stage({r}).{nm}"), id);
                            let f = self.names.clone();
                            let v = self.fresh(&ty, &f);
                            sts.push(St::Let(Pat::Bind(v), ty, self.g.bool(), e));
                            new.push(v);
                        }
                        7 if k < depth => {
                            // a value that a later stage defines
                            let j = self.g.usize(k + 1, depth);
                            let ty = if self.g.bool() { self.int_ty() } else { Ty::Bool };
                            let nm = format!("fw{}", self.id());
                            let id = self.pipe_var(&nm, &ty);
                            promised.push((j, nm.clone(), ty.clone(), id));
                            let e = self.raw(format!("stage({:+}).{nm}", j as i64 - k as i64), id);
                            let f = self.names.clone();
                            let v = self.fresh(&ty, &f);
                            sts.push(St::Let(Pat::Bind(v), ty, true, e));
                            new.push(v);
                        }
                        8 => {
                            let (t, id) = if if ctl { nth == 0 || self.g.chance(1, 3) } else { self.g.bool() } { ("stage.valid", valid[k]) } else { ("stage.ready", ready[k]) };
                            let e = self.raw(t.to_string(), id);
                            let f = self.names.clone();
                            let v = self.fresh(&Ty::Bool, &f);
                            sts.push(St::Let(Pat::Bind(v), Ty::Bool, self.g.bool(), e));
                            new.push(v);
                        }
                        9 | 10 => {
                            let c: Vec<usize> = (0..self.p.fns.len())
                                .filter(|i| self.p.fns[*i].kind == FnKind::Entity && self.p.fns[*i].clocks.len() == 1 && self.p.fns[*i].depth.map(|d| d + k <= depth && !stalls).unwrap_or(true))
                                .collect();
                            if c.is_empty() {
                                continue;
                            }
                            let ent = *self.g.pick(&c);
                            let tys = self.p.fns[ent].param_tys.clone();
                            let args: Vec<Ex> = tys.iter().map(|t| self.e(t, 2)).collect();
                            let style = self.style(args.len());
                            let ty = self.p.fns[ent].ret.clone();
                            let lat = self.p.fns[ent].depth.unwrap_or(0);
                            let f = self.names.clone();
                            let v = self.fresh(&ty, &f);
                            let id = self.id();
                            sts.push(St::Inst { id, pat: Pat::Bind(v), ty: ty.clone(), ann: self.g.bool(), ent, args, style });
                            if lat == 0 {
                                new.push(v);
                            } else {
                                let nm = self.names[v].clone();
                                vars.push(PV { name: nm, ty, from: k + lat, ids: [(k + lat, v)].into_iter().collect() });
                            }
                        }
                        _ => {
                            let cond = self.e(&Ty::Bool, 2);
                            let id = self.id();
                            sts.push(St::Assert { id, cond });
                        }
                    }
                    for v in new {
                        self.bring(v);
                        vars.push(PV { name: self.names[v].clone(), ty: self.tys[v].clone(), from: k, ids: [(k, v)].into_iter().collect() });
                    }
                }
            }
            if k == depth {
                break;
            }
            // separator to stage k + 1
            if k + 1 >= skip_until || k >= skip_until {
                let mut count = 1;
                if k >= skip_until {
                    let maxc = (1..).take_while(|c| k + c <= depth && !promised.iter().any(|p| p.0 > k && p.0 < k + c) && !(k + 1..k + c).any(|j| labels[j])).last().unwrap_or(1);
                    if maxc > 1 && self.g.chance(1, if ctl { 10 } else { 3 }) {
                        count = self.g.usize(2, maxc);
                    }
                    let cond = if stalls && count == 1 && self.g.chance(1 + 3 * ctl as u64, 2 + 3 * ctl as u64) {
                        let save = std::mem::replace(&mut self.scope, enter.clone());
                        let c = if self.g.chance(1, if ctl { 8 } else { 4 }) {
                            self.raw("stage.valid".into(), valid[k])
                        } else if ctl && self.scope.iter().any(|v| self.tys[*v] == Ty::Bool) && self.g.chance(5, 6) {
                            let c: Vec<usize> = self.scope.iter().copied().filter(|v| self.tys[*v] == Ty::Bool).collect();
                            let v = *self.g.pick(&c);
                            let inputs: Vec<usize> = ps.iter().copied().filter(|p| self.tys[*p] == Ty::Bool).collect();
                            let i = *self.g.pick(&inputs);
                            if k > 0 && self.g.bool() { self.raw(format!("stage(-{k}).{}", self.names[i]), i) } else { ex(&Ty::Bool, K::Var(v)) }
                        } else { self.e(&Ty::Bool, 1) };
                        self.scope = save;
                        Some(c)
                    } else {
                        None
                    };
                    conds.push(cond.clone());
                    sts.push(St::Stage(cond, count as u32));
                    for _ in 1..count {
                        conds.push(None);
                    }
                    skip_until = k + count;
                    if count == 1 {
                        skip_until = k + 1;
                    }
                }
            }
            for v in vars.iter_mut() {
                if v.from > k {
                    continue;
                }
                let to = match v.ids.get(&(k + 1)) {
                    Some(x) => *x,
                    None => {
                        self.names.push(v.name.clone());
                        self.tys.push(v.ty.clone());
                        let x = self.names.len() - 1;
                        v.ids.insert(k + 1, x);
                        x
                    }
                };
                moves.push((v.ids[&k], to, k));
            }
        }
        self.fuel = self.fuel.max(12);
        self.scope = vars.iter().filter(|v| v.from <= depth).map(|v| v.ids[&depth]).collect();
        let (ret, r) = self.observe_n(if ctl { 8 } else { 3 });
        self.unique = false;
        // how values move
        let var = |b: &B, v: usize| ex(&b.tys[v].clone(), K::Var(v));
        let tru = ex(&Ty::Bool, K::Lit(Val::B(true), 0));
        let hide = |s: St| St::Hidden(Box::new(s));
        let blet = |v: usize, e: Ex| St::Let(Pat::Bind(v), Ty::Bool, false, e);
        sts.push(hide(blet(ready[depth], tru.clone())));
        sts.push(hide(blet(valid[0], tru.clone())));
        for k in (0..depth).rev() {
            let down = var(self, ready[k + 1]);
            let e = match &conds[k] {
                Some(c) => ex(&Ty::Bool, K::If(c.clone(), down, ex(&Ty::Bool, K::Lit(Val::B(false), 0)))),
                None => down,
            };
            sts.push(hide(blet(ready[k], e)));
        }
        let mut hidden_reg = |b: &mut B, v: usize, value: Ex| {
            let id = b.id();
            let ty = b.tys[v].clone();
            St::Hidden(Box::new(St::Reg(Reg { id, pat: Pat::Bind(v), ty, ann: false, clk: 0, reset: None, initial: None, value, reset_first: false })))
        };
        // a separator without any condition at or after it never holds: what is behind it is always valid
        // as soon as everything before is
        for (a, b, k) in moves {
            let (va, vb) = (var(self, a), var(self, b));
            let t = self.tys[a].clone();
            let stalling = conds[k..].iter().any(|c| c.is_some());
            let v = if stalling { ex(&t, K::If(var(self, ready[k]), va, vb)) } else { va };
            let s = hidden_reg(self, b, v);
            sts.push(s);
        }
        for k in 0..depth {
            if conds[..=k].iter().all(|c| c.is_none()) && conds[k..].iter().all(|c| c.is_none()) {
                // no stall anywhere up to here: constantly valid
                sts.push(hide(blet(valid[k + 1], tru.clone())));
                continue;
            }
            let down = var(self, ready[k + 1]);
            let fals = ex(&Ty::Bool, K::Lit(Val::B(false), 0));
            let moved = match &conds[k] {
                Some(c) => ex(&Ty::Bool, K::If(c.clone(), var(self, valid[k]), fals)),
                None => var(self, valid[k]),
            };
            let v = ex(&Ty::Bool, K::If(down, moved, var(self, valid[k + 1])));
            let s = hidden_reg(self, valid[k + 1], v);
            sts.push(s);
        }
        self.p.fns.push(Func {
            name: name.into(),
            kind: FnKind::Entity,
            clocks: vec!["clk".into()],
            params: ps,
            param_tys: tys,
            ret,
            body: (sts, r),
            var_names: self.names.clone(),
            var_tys: self.tys.clone(),
            method_of: None,
            attrs: String::new(),
            depth: Some(depth),
        });
        self.p.fns.len() - 1
    }
    pub fn pipe_prog(&mut self) {
        self.defs(2);
        let b = self.cfg.budget;
        for k in 0..self.g.usize(0, 1) {
            self.cfg.budget = 12;
            self.gen_fn(&format!("f{k}"), None, false);
        }
        if self.g.chance(1, 3) {
            self.cfg.budget = 12;
            self.gen_entity("e0", 1);
        }
        for k in 0..self.g.usize(0, 2) {
            self.cfg.budget = 15;
            self.gen_pipe(&format!("p{k}"), false, false);
        }
        self.cfg.budget = b;
        let stalls = self.g.bool();
        let t = self.gen_pipe("top", stalls, false);
        self.p.top = t;
    }
    pub fn pipectl_prog(&mut self) {
        self.cfg.budget = 8;
        let t = self.gen_pipe("top", true, true);
        self.p.top = t;
    }
}
