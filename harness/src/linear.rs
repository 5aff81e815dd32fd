//! Programs that hand inverted wires (`inv T`) around: generator, printer and elaboration into a graph.
use crate::bv::Bv;
use crate::tape::Gen;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Bool,
    U(usize),
    Inv(Box<T>),
    Tup(Vec<T>),
    Arr(Box<T>, usize),
    St(usize),
}
/// values: leaves are graph nodes (data) or cells (inverted wires)
#[derive(Clone, Debug)]
pub enum V {
    N(usize),
    C(usize),
    L(Vec<V>),
}
#[derive(Clone, Debug)]
pub enum Node {
    In(usize),
    K(u64),
    /// whatever the cell is set to
    Cell(Option<usize>),
    Op(&'static str, Vec<usize>),
}
#[derive(Clone, Default)]
pub struct Graph {
    pub n: Vec<(Node, usize)>,
}
impl Graph {
    pub fn add(&mut self, n: Node, w: usize) -> usize {
        self.n.push((n, w));
        self.n.len() - 1
    }
    fn reaches(&self, from: usize, to: usize) -> bool {
        let mut seen = vec![false; self.n.len()];
        let mut q = vec![from];
        while let Some(x) = q.pop() {
            if x == to {
                return true;
            }
            if std::mem::replace(&mut seen[x], true) {
                continue;
            }
            match &self.n[x].0 {
                Node::Cell(Some(y)) => q.push(*y),
                Node::Op(_, a) => q.extend(a),
                _ => {}
            }
        }
        false
    }
    /// how many drivers disagree with "exactly once" is the caller's business; false: already set or a loop
    pub fn set(&mut self, cell: usize, v: usize) -> bool {
        if matches!(self.n[cell].0, Node::Cell(Some(_))) || self.reaches(v, cell) {
            return false;
        }
        self.n[cell].0 = Node::Cell(Some(v));
        true
    }
    pub fn eval(&self, x: usize, ins: &[u64], memo: &mut HashMap<usize, Option<u64>>) -> Option<u64> {
        if let Some(v) = memo.get(&x) {
            return *v;
        }
        let w = self.n[x].1;
        let m = if w >= 64 { u64::MAX } else { (1 << w) - 1 };
        let v = match &self.n[x].0 {
            Node::In(k) => Some(ins[*k]),
            Node::K(k) => Some(*k),
            Node::Cell(None) => None,
            Node::Cell(Some(y)) => self.eval(*y, ins, memo),
            Node::Op(o, a) => {
                let v: Option<Vec<u64>> = a.iter().map(|y| self.eval(*y, ins, memo)).collect();
                v.map(|v| match *o {
                    "+." => v[0].wrapping_add(v[1]) & m,
                    "-." => v[0].wrapping_sub(v[1]) & m,
                    "^" | "^^" => v[0] ^ v[1],
                    "&" | "&&" => v[0] & v[1],
                    "|" | "||" => v[0] | v[1],
                    "~" => !v[0] & m,
                    "==" => (v[0] == v[1]) as u64,
                    ">" => (v[0] > v[1]) as u64,
                    "if" => if v[0] != 0 { v[1] } else { v[2] },
                    _ => panic!(),
                })
            }
        };
        memo.insert(x, v);
        v
    }
}

#[derive(Clone, Debug)]
pub enum Acc {
    I(usize),
    F(usize, usize), // struct, field
    A(usize),
    /// elements i..j of an array
    S(usize, usize),
}
#[derive(Clone, Debug)]
pub enum Ex {
    Path(String, Vec<Acc>),
    K(u64, usize),
    Op(&'static str, Vec<Ex>),
    Tup(Vec<Ex>),
    Arr(Vec<Ex>),
    St(usize, Vec<Ex>, bool),
    Call(usize, Vec<Ex>),
    Port(T),
    Inspect(Box<Ex>, T),
    /// `*(&x).path`: reading data through a copy view
    View(String, Vec<Acc>),
    Block(Vec<Stmt>, Box<Ex>),
    /// `fn |a| {..}` capturing linear values, called at once
    Lam(Vec<String>, Vec<Stmt>, Box<Ex>, Vec<Ex>),
}
#[derive(Clone, Debug)]
pub enum Pat {
    N(String),
    Wild,
    Tup(Vec<Pat>),
    Arr(Vec<Pat>),
    St(usize, Vec<Pat>, bool),
}
#[derive(Clone, Debug)]
pub enum Stmt {
    Let(Pat, Ex, Option<T>),
    Set(Ex, Ex),
    Do(Ex),
}
#[derive(Clone, Debug)]
pub struct Unit {
    pub name: String,
    pub ps: Vec<(String, T)>,
    pub ret: T,
    pub body: Vec<Stmt>,
    pub res: Ex,
    pub inline: bool,
    /// method of the first parameter's struct
    pub method: bool,
    pub entity: bool,
    /// printed with type parameters in place of the parameters' types (the body does not look inside)
    pub generic: bool,
}
#[derive(Clone, Default)]
pub struct P {
    pub structs: Vec<Vec<(String, T)>>,
    pub units: Vec<Unit>,
}
impl P {
    pub fn lin(&self, t: &T) -> bool {
        match t {
            T::Bool | T::U(_) => false,
            T::Inv(_) => true,
            T::Tup(v) => v.iter().any(|t| self.lin(t)),
            T::Arr(t, _) => self.lin(t),
            T::St(s) => self.structs[*s].iter().any(|f| self.lin(&f.1)),
        }
    }
    pub fn parts(&self, t: &T) -> Option<Vec<(Acc, T)>> {
        match t {
            T::Tup(v) => Some(v.iter().enumerate().map(|(i, t)| (Acc::I(i), t.clone())).collect()),
            T::Arr(t, n) => Some((0..*n).map(|i| (Acc::A(i), (**t).clone())).collect()),
            T::St(s) => Some(self.structs[*s].iter().enumerate().map(|(i, f)| (Acc::F(*s, i), f.1.clone())).collect()),
            _ => None,
        }
    }
    pub fn leaves(&self, t: &T, inv: bool, out: &mut Vec<(bool, usize)>) {
        match t {
            T::Bool => out.push((inv, 1)),
            T::U(w) => out.push((inv, *w)),
            T::Inv(t) => self.leaves(t, !inv, out),
            _ => {
                let mut p = self.parts(t).unwrap();
                // element 0 of an array is in the least significant bits
                if matches!(t, T::Arr(..)) {
                    p.reverse();
                }
                p.iter().for_each(|p| self.leaves(&p.1, inv, out));
            }
        }
    }
    /// a value of type t whose leaves come from f(inverted, width)
    pub fn fresh(&self, t: &T, f: &mut dyn FnMut(bool, usize) -> usize) -> V {
        match t {
            T::Bool => V::N(f(false, 1)),
            T::U(w) => V::N(f(false, *w)),
            T::Inv(t) => {
                fn inv(p: &P, t: &T, f: &mut dyn FnMut(bool, usize) -> usize) -> V {
                    match t {
                        T::Bool => V::C(f(true, 1)),
                        T::U(w) => V::C(f(true, *w)),
                        t => V::L(p.parts(t).unwrap().iter().map(|x| inv(p, &x.1, f)).collect()),
                    }
                }
                inv(self, t, f)
            }
            _ => V::L(self.parts(t).unwrap().iter().map(|x| self.fresh(&x.1, f)).collect()),
        }
    }
    /// leaves of v in order of significance: data nodes and cells
    pub fn flat(&self, t: &T, v: &V, n: &mut Vec<usize>, c: &mut Vec<usize>) {
        match (t, v) {
            (T::Inv(t), v) => self.flat(t, v, n, c),
            (_, V::N(x)) => n.push(*x),
            (_, V::C(x)) => c.push(*x),
            (t, V::L(vs)) => {
                let mut p: Vec<_> = self.parts(t).unwrap().into_iter().zip(vs).collect();
                if matches!(t, T::Arr(..)) {
                    p.reverse();
                }
                p.iter().for_each(|(p, v)| self.flat(&p.1, v, n, c));
            }
        }
    }
}
/// cells as nodes
fn to_data(v: &V) -> V {
    match v {
        V::C(c) | V::N(c) => V::N(*c),
        V::L(v) => V::L(v.iter().map(to_data).collect()),
    }
}
fn to_inv(v: &V) -> V {
    match v {
        V::C(c) | V::N(c) => V::C(*c),
        V::L(v) => V::L(v.iter().map(to_inv).collect()),
    }
}
fn assign(gr: &mut Graph, c: &V, v: &V) -> bool {
    match (c, v) {
        (V::C(c), V::N(v)) => gr.set(*c, *v),
        (V::L(c), V::L(v)) => c.iter().zip(v).all(|(c, v)| assign(gr, c, v)),
        _ => panic!("assign {c:?} {v:?}"),
    }
}
fn step(v: &V, a: &Acc) -> V {
    let V::L(v) = v else { panic!("step") };
    match a {
        Acc::I(i) | Acc::F(_, i) | Acc::A(i) => v[*i].clone(),
        Acc::S(i, j) => V::L(v[*i..*j].to_vec()),
    }
}
type Env = Vec<(String, V)>;
/// elaborate; None: a wire would be set twice or be part of a loop
pub fn ex(p: &P, gr: &mut Graph, env: &Env, x: &Ex) -> Option<V> {
    let all = |gr: &mut Graph, v: &[Ex]| v.iter().map(|x| ex(p, gr, env, x)).collect::<Option<Vec<V>>>();
    Some(match x {
        Ex::Path(n, a) | Ex::View(n, a) => {
            let v = &env.iter().rev().find(|e| e.0 == *n).unwrap_or_else(|| panic!("no {n}")).1;
            a.iter().fold(v.clone(), |v, a| step(&v, a))
        }
        Ex::K(k, w) => V::N(gr.add(Node::K(*k), *w)),
        Ex::Op(o, a) => {
            let v: Vec<usize> = all(gr, a)?.into_iter().map(|v| if let V::N(n) = v { n } else { panic!("op") }).collect();
            let w = match *o {
                "==" | ">" => 1,
                "if" => gr.n[v[1]].1,
                _ => gr.n[v[0]].1,
            };
            V::N(gr.add(Node::Op(o, v), w))
        }
        Ex::Tup(v) | Ex::Arr(v) | Ex::St(_, v, _) => V::L(all(gr, v)?),
        Ex::Call(u, v) => {
            let v = all(gr, v)?;
            call(p, gr, *u, v)?
        }
        Ex::Port(t) => {
            let c = p.fresh(&T::Inv(Box::new(t.clone())), &mut |_, w| gr.add(Node::Cell(None), w));
            V::L(vec![to_data(&c), c])
        }
        Ex::Inspect(x, t) => {
            let old = ex(p, gr, env, x)?;
            let c = p.fresh(&T::Inv(Box::new(t.clone())), &mut |_, w| gr.add(Node::Cell(None), w));
            if !assign(gr, &to_inv(&old), &to_data(&c)) {
                return None;
            }
            V::L(vec![to_data(&c), c])
        }
        Ex::Block(s, r) => {
            let mut e = env.clone();
            run(p, gr, &mut e, s)?;
            ex(p, gr, &e, r)?
        }
        Ex::Lam(ps, s, r, args) => {
            let v = all(gr, args)?;
            let mut e = env.clone();
            e.extend(ps.iter().cloned().zip(v));
            run(p, gr, &mut e, s)?;
            ex(p, gr, &e, r)?
        }
    })
}
fn bind(pat: &Pat, v: &V, env: &mut Env) {
    match (pat, v) {
        (Pat::N(n), v) => env.push((n.clone(), v.clone())),
        (Pat::Wild, _) => {}
        (Pat::Tup(p) | Pat::Arr(p) | Pat::St(_, p, _), V::L(v)) => p.iter().zip(v).for_each(|(p, v)| bind(p, v, env)),
        _ => panic!("bind"),
    }
}
pub fn run(p: &P, gr: &mut Graph, env: &mut Env, s: &[Stmt]) -> Option<()> {
    for s in s {
        match s {
            Stmt::Let(pat, x, _) => {
                let v = ex(p, gr, env, x)?;
                bind(pat, &v, env);
            }
            Stmt::Set(a, b) => {
                let (a, b) = (ex(p, gr, env, a)?, ex(p, gr, env, b)?);
                if !assign(gr, &a, &b) {
                    return None;
                }
            }
            Stmt::Do(x) => {
                ex(p, gr, env, x)?;
            }
        }
    }
    Some(())
}
pub fn call(p: &P, gr: &mut Graph, u: usize, args: Vec<V>) -> Option<V> {
    let u = &p.units[u];
    let mut env: Env = u.ps.iter().map(|p| p.0.clone()).zip(args).collect();
    run(p, gr, &mut env, &u.body)?;
    ex(p, gr, &env, &u.res)
}

pub struct Pr<'a> {
    pub p: &'a P,
    pub pre: String,
}
impl Pr<'_> {
    pub fn ty(&self, t: &T) -> String {
        match t {
            T::Bool => "bool".into(),
            T::U(w) => format!("uint<{w}>"),
            T::Inv(t) => format!("inv {}", self.ty(t)),
            T::Tup(v) => format!("({})", v.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")),
            T::Arr(t, n) => format!("[{}; {n}]", self.ty(t)),
            T::St(s) => format!("{}S{s}", self.pre),
        }
    }
    fn path(&self, n: &str, a: &[Acc]) -> String {
        a.iter().fold(n.to_string(), |s, a| match a {
            Acc::I(i) => format!("{s}.{i}"),
            Acc::F(t, f) => format!("{s}.{}", self.p.structs[*t][*f].0),
            Acc::A(i) => format!("{s}[{i}]"),
            Acc::S(i, j) => format!("{s}[{i}..{j}]"),
        })
    }
    fn list(&self, v: &[Ex]) -> String {
        v.iter().map(|x| self.ex(x)).collect::<Vec<_>>().join(", ")
    }
    pub fn ex(&self, x: &Ex) -> String {
        match x {
            Ex::Path(n, a) => self.path(n, a),
            Ex::K(k, 1) => (*k != 0).to_string(),
            Ex::K(k, w) => format!("{k}u{w}"),
            Ex::Op("~", a) => format!("(~{})", self.ex(&a[0])),
            Ex::Op("if", a) => format!("if {} {{ {} }} else {{ {} }}", self.ex(&a[0]), self.ex(&a[1]), self.ex(&a[2])),
            Ex::Op(o, a) => format!("({} {o} {})", self.ex(&a[0]), self.ex(&a[1])),
            Ex::Tup(v) => format!("({})", self.list(v)),
            Ex::Arr(v) => format!("[{}]", self.list(v)),
            Ex::St(s, v, named) => {
                let fs = &self.p.structs[*s];
                if *named {
                    let mut l: Vec<String> = fs.iter().zip(v).map(|(f, x)| format!("{}: {}", f.0, self.ex(x))).collect();
                    l.reverse();
                    format!("{}S{s}$({})", self.pre, l.join(", "))
                } else {
                    format!("{}S{s}({})", self.pre, self.list(v))
                }
            }
            Ex::Call(u, v) => {
                let u = &self.p.units[*u];
                let i = if u.entity { "inst " } else { "" };
                if u.method {
                    format!("{}.{i}{}{}({})", self.ex(&v[0]), self.pre, u.name, self.list(&v[1..]))
                } else {
                    format!("{i}{}{}({})", self.pre, u.name, self.list(v))
                }
            }
            Ex::Port(t) => format!("core::ports::port::<{}>()", self.ty(t)),
            Ex::Inspect(x, _) => format!("{}.inspect()", self.ex(x)),
            Ex::View(n, a) => format!("(*{})", self.path(&format!("(&{n})"), a)),
            Ex::Block(s, r) => format!("{{ {}{} }}", s.iter().map(|s| self.stmt(s) + " ").collect::<String>(), self.ex(r)),
            Ex::Lam(ps, s, r, a) => format!("(fn |{}| {{ {}{} }}).call(({}{}))", ps.join(", "), s.iter().map(|s| self.stmt(s) + " ").collect::<String>(), self.ex(r), self.list(a), if a.len() == 1 { "," } else { "" }),
        }
    }
    fn pat(&self, p: &Pat) -> String {
        let l = |v: &[Pat]| v.iter().map(|p| self.pat(p)).collect::<Vec<_>>().join(", ");
        match p {
            Pat::N(n) => n.clone(),
            Pat::Wild => "_".into(),
            Pat::Tup(v) => format!("({})", l(v)),
            Pat::Arr(v) => format!("[{}]", l(v)),
            Pat::St(s, v, false) => format!("{}S{s}({})", self.pre, l(v)),
            Pat::St(s, v, true) => {
                let mut l: Vec<String> = self.p.structs[*s].iter().zip(v).map(|(f, p)| format!("{}: {}", f.0, self.pat(p))).collect();
                l.reverse();
                format!("{}S{s}$({})", self.pre, l.join(", "))
            }
        }
    }
    pub fn stmt(&self, s: &Stmt) -> String {
        match s {
            Stmt::Let(p, x, t) => format!("let {}{} = {};", self.pat(p), t.as_ref().map(|t| format!(": {}", self.ty(t))).unwrap_or_default(), self.ex(x)),
            Stmt::Set(a, b) => format!("set {} = {};", self.ex(a), self.ex(b)),
            Stmt::Do(x) => format!("{};", self.ex(x)),
        }
    }
    pub fn unit(&self, u: &Unit) -> String {
        let tys: Vec<String> = u.ps.iter().enumerate().map(|(i, p)| if u.generic { format!("T{i}") } else { self.ty(&p.1) }).collect();
        let mut ps: Vec<String> = u.ps.iter().zip(&tys).map(|(p, t)| format!("{}: {t}", p.0)).collect();
        if u.method {
            ps[0] = "self".into();
        }
        let (gp, ret) = if u.generic {
            // the result is a tuple of parameters, in some order
            let Ex::Tup(r) = &u.res else { panic!() };
            let r: Vec<String> = r
                .iter()
                .map(|x| {
                    let Ex::Path(n, _) = x else { panic!() };
                    tys[u.ps.iter().position(|p| p.0 == *n).unwrap()].clone()
                })
                .collect();
            (format!("<{}>", tys.join(", ")), format!("({})", r.join(", ")))
        } else {
            (String::new(), self.ty(&u.ret))
        };
        let f = format!(
            "{}{} {}{}{gp}({}) -> {ret} {{\n{}    {}\n}}\n",
            if u.inline { "#[inline] " } else { "" },
            if u.entity { "entity" } else { "fn" },
            self.pre,
            u.name,
            ps.join(", "),
            u.body.iter().map(|s| format!("    {}\n", self.stmt(s))).collect::<String>(),
            self.ex(&u.res)
        );
        if u.method { format!("impl {} {{ {f} }}\n", self.ty(&u.ps[0].1)) } else { f }
    }
    pub fn prog(&self) -> String {
        let mut s = String::new();
        for (i, fs) in self.p.structs.iter().enumerate() {
            s.push_str(&format!("struct {}S{i} {{ {} }}\n", self.pre, fs.iter().map(|(n, t)| format!("{n}: {}", self.ty(t))).collect::<Vec<_>>().join(", ")));
        }
        for u in &self.p.units {
            s.push_str(&self.unit(u));
        }
        s
    }
}

/// a linear resource that is still to be used: expression, type, value
#[derive(Clone)]
struct Res {
    n: String,
    a: Vec<Acc>,
    t: T,
    v: V,
}
pub struct GB<'a> {
    pub g: &'a mut Gen,
    pub p: P,
    gr: Graph,
    res: Vec<Res>,
    data: Vec<(Ex, T, V)>,
    body: Vec<Stmt>,
    id: usize,
    /// the standard library is available
    pub std: bool,
    env: Env,
    /// variables of linear type
    linroots: HashSet<String>,
}
type Snap = (Graph, Vec<Res>, Vec<(Ex, T, V)>, Vec<Stmt>, Env);
impl<'a> GB<'a> {
    pub fn new(g: &'a mut Gen, std: bool) -> GB<'a> {
        GB { g, p: P::default(), gr: Graph::default(), res: vec![], data: vec![], body: vec![], id: 0, std, env: vec![], linroots: HashSet::new() }
    }
    fn nm(&mut self, s: &str) -> String {
        self.id += 1;
        format!("{s}{}", self.id)
    }
    fn prim(&mut self) -> T {
        if self.g.chance(1, 3) { T::Bool } else { T::U(self.g.usize(2, 6)) }
    }
    /// a data type
    fn dty(&mut self, d: usize) -> T {
        match self.g.below(if d == 0 { 2 } else { 5 }) {
            0..=2 => self.prim(),
            3 => T::Tup((0..self.g.usize(2, 3)).map(|_| self.dty(d - 1)).collect()),
            _ => T::Arr(Box::new(self.dty(d - 1)), self.g.usize(1, 3)),
        }
    }
    /// a type that may contain inverted wires
    fn ty(&mut self, d: usize) -> T {
        let ns = self.p.structs.len();
        match self.g.below(if d == 0 { 5 } else { 11 }) {
            0 | 1 => self.prim(),
            2 | 3 => T::Inv(Box::new(self.prim())),
            4 => T::Inv(Box::new(self.dty(1))),
            5 | 6 | 7 => T::Tup((0..self.g.usize(2, 3)).map(|_| self.ty(d - 1)).collect()),
            8 => T::Arr(Box::new(self.ty(d - 1)), self.g.usize(1, 3)),
            _ if ns > 0 => T::St(self.g.usize(0, ns - 1)),
            _ => T::Inv(Box::new(self.prim())),
        }
    }
    fn width(t: &T) -> Option<usize> {
        match t {
            T::Bool => Some(1),
            T::U(w) => Some(*w),
            _ => None,
        }
    }
    /// every data leaf reachable from a value becomes usable
    fn learn(&mut self, n: &str, a: &[Acc], t: &T, v: &V) {
        if matches!(t, T::Inv(_)) {
            return;
        }
        if !self.p.lin(t) {
            self.data.push((Ex::Path(n.to_string(), a.to_vec()), t.clone(), v.clone()));
        }
        if let Some(ps) = self.p.parts(t) {
            // indexing an array of linear values for its data part is fine only with constants, which we use
            for (acc, pt) in ps {
                let mut b = a.to_vec();
                b.push(acc.clone());
                let pv = step(v, &acc);
                if matches!(acc, Acc::A(_)) && self.p.lin(t) {
                    continue;
                }
                self.learn(n, &b, &pt, &pv);
            }
        }
    }
    fn bindv(&mut self, n: &str, t: &T, v: &V) {
        self.learn(n, &[], t, v);
        if self.p.lin(t) {
            self.linroots.insert(n.to_string());
            self.res.push(Res { n: n.to_string(), a: vec![], t: t.clone(), v: v.clone() });
        }
    }
    fn dex(&mut self, t: &T, d: usize) -> Ex {
        if let Some(w) = Self::width(t) {
            let c: Vec<Ex> = self.data.iter().filter(|x| x.1 == *t).map(|x| x.0.clone()).collect();
            return match self.g.below(if d == 0 { 4 } else { 10 }) {
                0 => Ex::K(self.g.below(1 << w), w),
                1..=5 if !c.is_empty() => {
                    let x = self.g.pick(&c).clone();
                    match x {
                        Ex::Path(n, a) if self.g.chance(1, 8) && !a.iter().any(|a| matches!(a, Acc::A(_))) => Ex::View(n, a),
                        x => x,
                    }
                }
                6 => Ex::Op("if", vec![self.dex(&T::Bool, d - 1), self.dex(t, d - 1), self.dex(t, d - 1)]),
                7 if *t == T::Bool => {
                    let o = self.prim();
                    let op = if o == T::Bool { "==" } else { *self.g.pick(&["==", ">"]) };
                    Ex::Op(op, vec![self.dex(&o, d - 1), self.dex(&o, d - 1)])
                }
                _ if d > 0 => {
                    let op = if *t == T::Bool { *self.g.pick(&["^^", "&&", "||"]) } else { *self.g.pick(&["+.", "-.", "^", "&", "|"]) };
                    Ex::Op(op, vec![self.dex(t, d - 1), self.dex(t, d - 1)])
                }
                _ => Ex::K(self.g.below(1 << w), w),
            };
        }
        let c: Vec<Ex> = self.data.iter().filter(|x| x.1 == *t).map(|x| x.0.clone()).collect();
        if !c.is_empty() && self.g.bool() {
            return self.g.pick(&c).clone();
        }
        let ps = self.p.parts(t).unwrap();
        let v: Vec<Ex> = ps.iter().map(|p| self.dex(&p.1, d.saturating_sub(1))).collect();
        self.compound(t, v)
    }
    fn compound(&mut self, t: &T, v: Vec<Ex>) -> Ex {
        match t {
            T::Tup(_) => Ex::Tup(v),
            T::Arr(..) => Ex::Arr(v),
            T::St(s) => Ex::St(*s, v, self.g.chance(1, 3)),
            _ => panic!(),
        }
    }
    fn snap(&self) -> Snap {
        (self.gr.clone(), self.res.clone(), self.data.clone(), self.body.clone(), self.env.clone())
    }
    fn restore(&mut self, s: Snap) {
        (self.gr, self.res, self.data, self.body, self.env) = s;
    }
    fn exec(&mut self, s: Stmt) -> Option<()> {
        run(&self.p, &mut self.gr, &mut self.env, std::slice::from_ref(&s))?;
        self.body.push(s);
        Some(())
    }
    /// `let pat = x` where x has type t; names are learned
    fn let_(&mut self, x: Ex, t: &T, destructure: bool) -> Option<Vec<String>> {
        let mut names = vec![];
        let pat = self.pat(t, if destructure { 2 } else { 0 }, &mut names);
        let ann = if self.g.chance(1, 4) { Some(t.clone()) } else { None };
        self.exec(Stmt::Let(pat, x, ann))?;
        for (n, t) in &names {
            let v = self.env.iter().rev().find(|e| e.0 == *n).unwrap().1.clone();
            self.bindv(n, t, &v);
        }
        Some(names.into_iter().map(|x| x.0).collect())
    }
    fn pat(&mut self, t: &T, d: usize, names: &mut Vec<(String, T)>) -> Pat {
        if d > 0 && (d == 2 || self.g.bool()) {
            if let Some(ps) = self.p.parts(t) {
                let v: Vec<Pat> = ps.iter().map(|p| self.pat(&p.1, d - 1, names)).collect();
                return match t {
                    T::Tup(_) => Pat::Tup(v),
                    T::Arr(..) => Pat::Arr(v),
                    T::St(s) => Pat::St(*s, v, self.g.chance(1, 3)),
                    _ => panic!(),
                };
            }
        }
        if !self.p.lin(t) && self.g.chance(1, 8) {
            return Pat::Wild;
        }
        let n = self.nm("v");
        names.push((n.clone(), t.clone()));
        Pat::N(n)
    }
    fn split(&mut self, k: usize) {
        let r = self.res.remove(k);
        if let (T::Arr(t, n), true) = (&r.t, !matches!(r.t, T::Arr(_, 1))) {
            if self.g.chance(1, 2) {
                // into slices
                let mut i = 0;
                while i < *n {
                    let j = self.g.usize(i + 1, *n);
                    let acc = Acc::S(i, j);
                    let mut a = r.a.clone();
                    a.push(acc.clone());
                    self.res.push(Res { n: r.n.clone(), a, v: step(&r.v, &acc), t: T::Arr(t.clone(), j - i) });
                    i = j;
                }
                return;
            }
        }
        for (acc, t) in self.p.parts(&r.t).unwrap() {
            if self.p.lin(&t) {
                let mut a = r.a.clone();
                a.push(acc.clone());
                self.res.push(Res { n: r.n.clone(), a, v: step(&r.v, &acc), t });
            }
        }
    }
    /// an expression of linear type t that uses up resources
    fn take(&mut self, t: &T) -> Option<Ex> {
        let c: Vec<usize> = (0..self.res.len()).filter(|k| self.res[*k].t == *t).collect();
        if !c.is_empty() && self.g.chance(4, 5) {
            let r = self.res.remove(*self.g.pick(&c));
            return Some(Ex::Path(r.n, r.a));
        }
        if let T::Inv(d) = t {
            // a part of something larger
            let parts: Vec<usize> = (0..self.res.len()).filter(|k| self.p.parts(&self.res[*k].t).is_some_and(|p| p.iter().any(|p| p.1 == *t))).collect();
            if !parts.is_empty() && self.g.chance(2, 3) {
                let k = *self.g.pick(&parts);
                self.split(k);
                return self.take(t);
            }
            let pt = T::Tup(vec![(**d).clone(), t.clone()]);
            if self.g.chance(1, 4) {
                // only the inverted half, in place
                return Some(Ex::Path(self.port(&pt, d, false)?, vec![Acc::I(1)]));
            }
            return Some(Ex::Path(self.port(&pt, d, true)?, vec![]));
        }
        let ps = self.p.parts(t)?;
        let v: Option<Vec<Ex>> = ps.iter().map(|p| if self.p.lin(&p.1) { self.take(&p.1) } else { Some(self.dex(&p.1, 1)) }).collect();
        Some(self.compound(t, v?))
    }
    /// a new port; the name of the inverted half (or of the pair), which the caller consumes
    fn port(&mut self, pt: &T, d: &T, destructure: bool) -> Option<String> {
        let (f, b) = (self.nm("f"), self.nm("b"));
        let x = Ex::Port(d.clone());
        if destructure {
            self.exec(Stmt::Let(Pat::Tup(vec![Pat::N(f.clone()), Pat::N(b.clone())]), x, None))?;
            let v = self.env.iter().rev().find(|e| e.0 == f).unwrap().1.clone();
            self.bindv(&f, d, &v);
            self.linroots.insert(b.clone());
            Some(b)
        } else {
            self.exec(Stmt::Let(Pat::N(b.clone()), x, None))?;
            let v = self.env.iter().rev().find(|e| e.0 == b).unwrap().1.clone();
            self.learn(&b, &[], pt, &v);
            self.linroots.insert(b.clone());
            Some(b)
        }
    }
    fn step(&mut self) -> Option<()> {
        match self.g.below(12) {
            0 => {
                let c: Vec<usize> = (0..self.res.len()).filter(|k| self.p.parts(&self.res[*k].t).is_some()).collect();
                if !c.is_empty() {
                    let k = *self.g.pick(&c);
                    self.split(k);
                }
            }
            1 | 2 => {
                if !self.res.is_empty() {
                    let k = self.g.usize(0, self.res.len() - 1);
                    let r = self.res.remove(k);
                    let d = self.g.bool();
                    self.let_(Ex::Path(r.n, r.a), &r.t, d)?;
                }
            }
            3 => {
                let t = self.ty(2);
                if self.p.lin(&t) {
                    let x = self.take(&t)?;
                    self.let_(x, &t, false)?;
                }
            }
            4 => {
                let d = self.dty(1);
                let t = T::Tup(vec![d.clone(), T::Inv(Box::new(d.clone()))]);
                let b = self.g.chance(3, 4);
                self.let_(Ex::Port(d), &t, b)?;
            }
            5 => {
                let c: Vec<usize> = (0..self.res.len()).filter(|k| matches!(self.res[*k].t, T::Inv(_))).collect();
                if !c.is_empty() {
                    let k = *self.g.pick(&c);
                    self.set(k, 2)?;
                }
            }
            6 | 7 | 8 => {
                let us: Vec<usize> = (0..self.p.units.len()).filter(|u| !self.p.units[*u].generic).collect();
                if !us.is_empty() {
                    let u = *self.g.pick(&us);
                    self.callu(u)?;
                }
            }
            9 => {
                let c: Vec<usize> = (0..self.res.len()).filter(|k| matches!(self.res[*k].t, T::Inv(_))).collect();
                if !c.is_empty() && self.std {
                    let r = self.res.remove(*self.g.pick(&c));
                    let T::Inv(d) = &r.t else { panic!() };
                    let t = T::Tup(vec![(**d).clone(), r.t.clone()]);
                    self.let_(Ex::Inspect(Box::new(Ex::Path(r.n, r.a)), (**d).clone()), &t, true)?;
                }
            }
            10 => {
                // a block that repacks
                if !self.res.is_empty() {
                    let k = self.g.usize(0, self.res.len() - 1);
                    let r = self.res.remove(k);
                    let n = self.nm("w");
                    let x = Ex::Block(vec![Stmt::Let(Pat::N(n.clone()), Ex::Path(r.n, r.a), None)], Box::new(Ex::Path(n, vec![])));
                    let d = self.g.bool();
                    self.let_(x, &r.t, d)?;
                }
            }
            _ => {
                // a lambda that captures a wire and sets it
                let c: Vec<usize> = (0..self.res.len()).filter(|k| matches!(&self.res[*k].t, T::Inv(t) if Self::width(t).is_some()) && self.res[*k].a.is_empty()).collect();
                if !c.is_empty() {
                    let r = self.res.remove(*self.g.pick(&c));
                    let T::Inv(d) = &r.t else { panic!() };
                    let at = self.prim();
                    let arg = self.dex(&at, 1);
                    let keep = self.data.clone();
                    let roots = self.linroots.clone();
                    let root = |x: &Ex| if let Ex::Path(n, _) = x { n.clone() } else { String::new() };
                    self.data.retain(|x| !roots.contains(&root(&x.0)));
                    let a = self.nm("a");
                    // the argument as a data value of the lambda
                    self.data.push((Ex::Path(a.clone(), vec![]), at.clone(), V::L(vec![])));
                    let val = self.dex(d, 2);
                    let res = if self.g.bool() { self.dex(&at, 1) } else { Ex::Path(a.clone(), vec![]) };
                    self.data = keep;
                    self.let_(Ex::Lam(vec![a], vec![Stmt::Set(Ex::Path(r.n, r.a), val)], Box::new(res), vec![arg]), &at, false)?;
                }
            }
        }
        Some(())
    }
    fn set(&mut self, k: usize, d: usize) -> Option<()> {
        let r = self.res.remove(k);
        let T::Inv(t) = &r.t else { panic!() };
        let v = self.dex(t, d);
        self.exec(Stmt::Set(Ex::Path(r.n, r.a), v))
    }
    fn callu(&mut self, u: usize) -> Option<()> {
        let (ps, ret) = (self.p.units[u].ps.clone(), self.p.units[u].ret.clone());
        let mut args = vec![];
        for (_, t) in &ps {
            args.push(if self.p.lin(t) { self.take(t)? } else { self.dex(t, 2) });
        }
        let d = self.g.bool();
        self.let_(Ex::Call(u, args), &ret, d)?;
        Some(())
    }
    fn attempt(&mut self, f: impl Fn(&mut Self) -> Option<()>) -> bool {
        let s = self.snap();
        if f(self).is_none() {
            self.restore(s);
            return false;
        }
        true
    }
    fn unit(&mut self, top: bool) {
        (self.res, self.data, self.body, self.env) = (vec![], vec![], vec![], vec![]);
        self.gr = Graph::default();
        let method = !top && !self.p.structs.is_empty() && self.g.chance(1, 4);
        let np = self.g.usize(1, 4);
        let mut ps = vec![];
        for k in 0..np {
            let t = if k == 0 && method { T::St(self.g.usize(0, self.p.structs.len() - 1)) } else { self.ty(2) };
            let n = if k == 0 && method { "self".to_string() } else { self.nm("p") };
            let mut ins = self.gr.n.iter().filter(|n| matches!(n.0, Node::In(_))).count();
            let gr = &mut self.gr;
            let v = self.p.fresh(&t, &mut |inv, w| {
                if inv {
                    gr.add(Node::Cell(None), w)
                } else {
                    ins += 1;
                    gr.add(Node::In(ins - 1), w)
                }
            });
            self.env.push((n.clone(), v.clone()));
            self.bindv(&n, &t, &v);
            ps.push((n, t));
        }
        if top {
            let n = self.nm("c");
            let i = self.gr.n.iter().filter(|n| matches!(n.0, Node::In(_))).count();
            let x = self.gr.add(Node::In(i), 4);
            self.env.push((n.clone(), V::N(x)));
            self.bindv(&n, &T::U(4), &V::N(x));
            ps.push((n, T::U(4)));
        }
        for _ in 0..self.g.usize(2, if top { 10 } else { 6 }) {
            let from = self.g.used();
            self.attempt(|b| b.step());
            self.g.span(from, ());
        }
        // what is left over is returned or set
        let mut out = vec![];
        let mut k = 0;
        while k < self.res.len() {
            if self.g.chance(2, 5) {
                let r = self.res.remove(k);
                out.push((Ex::Path(r.n, r.a), r.t));
            } else {
                k += 1;
            }
        }
        while !self.res.is_empty() {
            let k = self.g.usize(0, self.res.len() - 1);
            if !matches!(self.res[k].t, T::Inv(_)) {
                self.split(k);
                continue;
            }
            if !self.attempt(|b| b.set(k, 2)) {
                let r = self.res.remove(k);
                let T::Inv(t) = &r.t else { panic!() };
                let v = self.zero(t);
                self.exec(Stmt::Set(Ex::Path(r.n, r.a), v)).expect("constants make no loops");
            }
        }
        for _ in 0..self.g.usize(1, 2) {
            let t = self.dty(1);
            let x = self.dex(&t, 2);
            let at = self.g.usize(0, out.len());
            out.insert(at, (x, t));
        }
        let (xs, ts): (Vec<Ex>, Vec<T>) = out.into_iter().unzip();
        let (res, ret) = if xs.len() == 1 { (xs[0].clone(), ts[0].clone()) } else { (Ex::Tup(xs), T::Tup(ts)) };
        let n = self.p.units.len();
        let entity = !top && self.g.chance(1, 4);
        let u = Unit { name: if top { "top".into() } else { format!("f{n}") }, ps, ret, body: std::mem::take(&mut self.body), res, inline: !top && self.g.chance(1, 4), method, entity: false, generic: false };
        let _ = entity;
        self.p.units.push(u);
    }
    fn zero(&mut self, t: &T) -> Ex {
        if let Some(w) = Self::width(t) {
            return Ex::K(self.g.below(1 << w), w);
        }
        let v: Vec<Ex> = self.p.parts(t).unwrap().iter().map(|p| self.zero(&p.1)).collect();
        self.compound(t, v)
    }
    pub fn prog(&mut self) {
        for _ in 0..self.g.usize(0, 2) {
            let n = self.g.usize(1, 3);
            let fs: Vec<(String, T)> = (0..n).map(|k| (["x", "y", "z"][k].to_string(), self.ty(1))).collect();
            self.p.structs.push(fs);
        }
        // generic repacking units, each used at one type
        for _ in 0..self.g.usize(1, 4) {
            let from = self.g.used();
            self.unit(false);
            self.g.span(from, ());
        }
        self.unit(true);
    }
}

/// a change after which some wire is used twice or not at all; what was done
pub fn mutate(g: &mut Gen, p: &mut P) -> Option<&'static str> {
    let u = g.usize(0, p.units.len() - 1);
    let pp = p.clone();
    let un = &mut p.units[u];
    // linear leaves: the target of each set, and whole linear parameters
    let sets: Vec<usize> = (0..un.body.len()).filter(|k| matches!(un.body[*k], Stmt::Set(..))).collect();
    match g.below(7) {
        0 | 1 if !sets.is_empty() => {
            un.body.remove(*g.pick(&sets));
            Some("a set left out")
        }
        2 if !sets.is_empty() => {
            let k = *g.pick(&sets);
            let s = un.body[k].clone();
            let at = g.usize(k + 1, un.body.len());
            un.body.insert(at, s);
            Some("a wire set twice")
        }
        3 => {
            // an additional use of a parameter that contains inverted wires
            let c: Vec<String> = un.ps.iter().filter(|x| pp.lin(&x.1)).map(|x| x.0.clone()).collect();
            if c.is_empty() {
                return None;
            }
            let n = g.pick(&c).clone();
            let at = g.usize(0, un.body.len());
            un.body.insert(at, Stmt::Let(Pat::N("extra".into()), Ex::Path(n, vec![]), None));
            Some("a parameter used once more")
        }
        4 => {
            // a new port nobody drives
            let at = g.usize(0, un.body.len());
            let pat = if g.bool() { Pat::Tup(vec![Pat::N("f_".into()), Pat::N("b_".into())]) } else { Pat::N("fb_".into()) };
            un.body.insert(at, Stmt::Let(pat, Ex::Port(T::U(3)), None));
            Some("a port nobody drives")
        }
        5 => {
            // a parameter nobody drives
            if un.name == "top" {
                let t = [T::Inv(Box::new(T::Bool)), T::Tup(vec![T::U(2), T::Inv(Box::new(T::U(2)))]), T::Arr(Box::new(T::Inv(Box::new(T::Bool))), 2)];
                un.ps.push(("extra".into(), g.pick(&t).clone()));
                Some("a parameter nobody drives")
            } else {
                None
            }
        }
        _ => {
            // return something once more
            let c: Vec<(String, T)> = un.ps.iter().filter(|x| pp.lin(&x.1)).cloned().collect();
            if c.is_empty() || un.name != "top" {
                return None;
            }
            let (n, t) = g.pick(&c).clone();
            un.res = Ex::Tup(vec![un.res.clone(), Ex::Path(n, vec![])]);
            un.ret = T::Tup(vec![un.ret.clone(), t]);
            Some("a parameter returned as well")
        }
    }
}

/// what the environment sees: inputs drive data parameters and returned wires, outputs are the rest
pub struct Oracle {
    pub gr: Graph,
    /// port name, leaves (most significant first)
    pub ins: Vec<(String, Vec<usize>)>,
    pub outs: Vec<(String, Vec<usize>)>,
    pub nin: usize,
}
pub fn oracle(p: &P) -> Option<Oracle> {
    let u = p.units.last().unwrap();
    let mut gr = Graph::default();
    let mut nin = 0;
    let args: Vec<V> = u
        .ps
        .iter()
        .map(|x| {
            p.fresh(&x.1, &mut |inv, w| {
                if inv {
                    gr.add(Node::Cell(None), w)
                } else {
                    nin += 1;
                    gr.add(Node::In(nin - 1), w)
                }
            })
        })
        .collect();
    let (mut ins, mut outs) = (vec![], vec![]);
    for (x, v) in u.ps.iter().zip(&args) {
        let (mut n, mut c) = (vec![], vec![]);
        p.flat(&x.1, v, &mut n, &mut c);
        ins.push((format!("{}_i", x.0), n));
        outs.push((format!("{}_o", x.0), c));
    }
    let r = call(p, &mut gr, p.units.len() - 1, args)?;
    let (mut n, mut c) = (vec![], vec![]);
    p.flat(&u.ret, &r, &mut n, &mut c);
    outs.push(("output__".into(), n));
    for x in &c {
        nin += 1;
        let w = gr.n[*x].1;
        let i = gr.add(Node::In(nin - 1), w);
        if !gr.set(*x, i) {
            return None;
        }
    }
    ins.push(("input__".into(), c.clone()));
    ins.retain(|x| !x.1.is_empty());
    outs.retain(|x| !x.1.is_empty());
    Some(Oracle { gr, ins, outs, nin })
}
impl Oracle {
    /// inputs and expected outputs for values of the input leaves
    pub fn eval(&self, vals: &[u64]) -> (Vec<(String, Bv)>, Vec<(String, Bv)>) {
        let mut memo = HashMap::new();
        let mut cat = |x: &(String, Vec<usize>)| {
            let mut b = Bv::zero(0);
            for n in &x.1 {
                let w = self.gr.n[*n].1;
                let v = match self.gr.eval(*n, vals, &mut memo) {
                    Some(v) => Bv::from_u64(w, v),
                    None => Bv::x(w),
                };
                b = b.concat(&v);
            }
            (x.0.clone(), b)
        };
        let i = self.ins.iter().map(&mut cat).collect();
        (i, self.outs.iter().map(&mut cat).collect())
    }
}
