//! Pipelines are accepted exactly when every value is ready where it is used, and then compute what they say.
use crate::bv::Bv;
use crate::runner::*;
use crate::spadec::{self, Level, Opts};
use crate::tape::{self, Gen};
use crate::vsim::Sim;
use serde_json::json;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Debug)]
enum E {
    Lit(u8),
    /// variable of the pipeline, through the current stage
    Var(usize),
    /// variable of the pipeline in another stage: offset or label of that stage
    Ref(i64, bool, usize),
    /// name bound in a block or arm
    Loc(usize),
    Bin(usize, Box<E>, Box<E>),
    Not(Box<E>),
    /// a < b, then, else
    If(Box<E>, Box<E>, Box<E>, Box<E>),
    /// match (a, b) { (lit, x) => e1, (x, y) if guard < lit => e2, (x, y) => e3 }
    Match(Box<E>, Box<E>, u8, usize, Box<E>, Option<(Box<E>, usize, usize, Box<E>)>, usize, usize, Box<E>),
    /// tuple, array or struct of two, and which one is taken
    Pair(u8, Box<E>, Box<E>, bool),
    /// array with a dynamic index
    Dyn(Box<E>, Box<E>, Box<E>),
    Fn(Box<E>, Box<E>),
    /// sub pipeline with latency and the function it computes, called as pipeline or method
    Inst(usize, bool, Vec<E>),
    Block(Vec<(usize, E)>, Box<E>),
}
/// statement: variable, stage, register, expression
struct St {
    stage: usize,
    reg: bool,
    var: usize,
    ann: bool,
    /// second variable, bound together with the first one
    pair: Option<(usize, E)>,
    e: E,
}
struct Pl {
    stages: usize,
    inputs: usize,
    labels: Vec<bool>,
    /// number of separate reg statements is `stages`, some are joined in the text when nothing is between them
    sts: Vec<St>,
    result: E,
    nlocals: usize,
    pre: String,
    join: bool,
}
/// latency, function, method, arguments
const SUBS: &[(usize, u8, usize)] = &[(1, 0, 1), (1, 1, 2), (2, 2, 1), (2, 3, 2), (3, 1, 2), (4, 0, 1), (1, 2, 1), (3, 4, 1)];
fn sub_fn(f: u8, a: &[u8]) -> u8 {
    match f {
        0 => a[0].wrapping_add(1),
        1 => a[0] ^ a[1].wrapping_add(3),
        2 => a[0] ^ 0x5a,
        3 => a[0].wrapping_sub(a[1]),
        _ => a[0].wrapping_add(100),
    }
}
fn sub_text(f: u8) -> &'static str {
    match f {
        0 => "a +. 1",
        1 => "a ^ (b +. 3)",
        2 => "a ^ 0x5a",
        3 => "a -. b",
        _ => "a +. 100",
    }
}
const OPS: &[&str] = &["^", "+.", "&", "|", "-."];
fn op(o: usize, a: u8, b: u8) -> u8 {
    match o {
        0 => a ^ b,
        1 => a.wrapping_add(b),
        2 => a & b,
        3 => a | b,
        _ => a.wrapping_sub(b),
    }
}

struct Builder<'a> {
    g: &'a mut Gen,
    /// planned stage and delay of every variable
    plan: Vec<(usize, usize)>,
    stages: usize,
    nlocals: usize,
    /// mistakes allowed: one in so many choices
    wild: u64,
}
impl<'a> Builder<'a> {
    fn slip(&mut self) -> bool {
        self.wild > 0 && self.g.chance(1, self.wild)
    }
    /// expression for stage `s` with delay `d` (None: any); `vis` variables, `locs` names with their delays
    fn ex(&mut self, s: usize, d: usize, vis: &[usize], locs: &[(usize, usize)], depth: usize) -> E {
        let d = if self.slip() { self.g.usize(0, 3) } else { d };
        if depth == 0 || self.g.chance(1, 5) {
            return self.leaf(s, d, vis, locs);
        }
        let b = |e: E| Box::new(e);
        match self.g.weighted(&[6, 2, 3, 3, 3, 2, 3, if d > 0 { 8 } else { 0 }, 4]) {
            0 => {
                let o = self.g.usize(0, OPS.len() - 1);
                let x = self.ex(s, d, vis, locs, depth - 1);
                let y = self.ex(s, d, vis, locs, depth - 1);
                E::Bin(o, b(x), b(y))
            }
            1 => E::Not(b(self.ex(s, d, vis, locs, depth - 1))),
            2 => E::If(
                b(self.ex(s, d, vis, locs, depth - 1)),
                b(self.ex(s, d, vis, locs, depth - 1)),
                b(self.ex(s, d, vis, locs, depth - 1)),
                b(self.ex(s, d, vis, locs, depth - 1)),
            ),
            3 => {
                let x = self.ex(s, d, vis, locs, depth - 1);
                let y = self.ex(s, d, vis, locs, depth - 1);
                let mut new = |n: usize| {
                    self.nlocals += n;
                    (self.nlocals - n..self.nlocals).collect::<Vec<_>>()
                };
                let (a, c, e) = (new(1)[0], new(2), new(2));
                let with = |v: &[usize]| locs.iter().copied().chain(v.iter().map(|x| (*x, d))).collect::<Vec<_>>();
                let r1 = self.ex(s, d, vis, &with(&[a]), depth - 1);
                let mid = if self.g.bool() {
                    let l = with(&c);
                    let gd = self.ex(s, d, vis, &l, depth - 1);
                    let r = self.ex(s, d, vis, &l, depth - 1);
                    Some((b(gd), c[0], c[1], b(r)))
                } else {
                    None
                };
                let r3 = self.ex(s, d, vis, &with(&e), depth - 1);
                E::Match(b(x), b(y), self.g.below(256) as u8, a, b(r1), mid, e[0], e[1], b(r3))
            }
            4 => {
                let k = self.g.below(3) as u8;
                let w = self.g.bool();
                E::Pair(k, b(self.ex(s, d, vis, locs, depth - 1)), b(self.ex(s, d, vis, locs, depth - 1)), w)
            }
            5 => E::Dyn(b(self.ex(s, d, vis, locs, depth - 1)), b(self.ex(s, d, vis, locs, depth - 1)), b(self.ex(s, d, vis, locs, depth - 1))),
            6 => E::Fn(b(self.ex(s, d, vis, locs, depth - 1)), b(self.ex(s, d, vis, locs, depth - 1))),
            7 => {
                let c: Vec<usize> = (0..SUBS.len()).filter(|i| SUBS[*i].0 <= d).collect();
                let i = if self.slip() { self.g.usize(0, SUBS.len() - 1) } else { *self.g.pick(&c) };
                let m = self.g.bool();
                let inner = d.saturating_sub(SUBS[i].0);
                let args = (0..SUBS[i].2).map(|_| self.ex(s, inner, vis, locs, depth - 1)).collect();
                E::Inst(i, m, args)
            }
            _ => {
                let mut l = locs.to_vec();
                let mut v = vec![];
                for _ in 0..self.g.usize(1, 2) {
                    let dd = if self.g.chance(2, 3) { d } else { self.g.usize(0, d) };
                    let e = self.ex(s, dd, vis, &l, depth - 1);
                    let x = self.nlocals;
                    self.nlocals += 1;
                    v.push((x, e));
                    l.push((x, dd));
                }
                E::Block(v, b(self.ex(s, d, vis, &l, depth - 1)))
            }
        }
    }
    fn leaf(&mut self, s: usize, d: usize, vis: &[usize], locs: &[(usize, usize)]) -> E {
        let l: Vec<usize> = locs.iter().filter(|x| x.1 == d).map(|x| x.0).collect();
        if !l.is_empty() && self.g.chance(1, 2) {
            return E::Loc(*self.g.pick(&l));
        }
        if d > 0 {
            let c: Vec<usize> = (0..SUBS.len()).filter(|i| SUBS[*i].0 == d).collect();
            if self.g.chance(1, 6) || c.is_empty() {
                return E::Lit(self.g.below(256) as u8);
            }
            let i = *self.g.pick(&c);
            let m = self.g.bool();
            let args = (0..SUBS[i].2).map(|_| self.leaf(s, 0, vis, locs)).collect();
            return E::Inst(i, m, args);
        }
        let slip = self.slip();
        let ready: Vec<usize> = vis.iter().copied().filter(|v| slip || self.plan[*v].0 + self.plan[*v].1 <= s).collect();
        match self.g.weighted(&[1, if ready.is_empty() { 0 } else { 8 }, 3]) {
            0 => E::Lit(self.g.below(256) as u8),
            1 => E::Var(*self.g.pick(&ready)),
            _ => {
                let v = self.g.usize(0, self.plan.len() - 1);
                let from = self.plan[v].0 + self.plan[v].1;
                if from > self.stages || slip {
                    let to = self.g.usize(0, self.stages + 1) as i64 - if slip { 1 } else { 0 };
                    return E::Ref(to - s as i64, false, v);
                }
                let mut to = self.g.usize(from, self.stages);
                if to == s && !vis.contains(&v) {
                    // a plain use of a later name
                    if to < self.stages { to += 1 } else { return E::Lit(1) }
                }
                E::Ref(to as i64 - s as i64, self.g.chance(1, 3), v)
            }
        }
    }
}

fn build(g: &mut Gen, pre: &str) -> Pl {
    let stages = g.usize(1, 5);
    let inputs = g.usize(1, 3);
    let wild = *g.pick(&[0, 0, 60, 30]);
    let n = g.usize(1, 6);
    let mut plan: Vec<(usize, usize)> = vec![(0, 0); inputs];
    let mut st: Vec<usize> = (0..n).map(|_| g.usize(0, stages)).collect();
    st.sort();
    // (stage, delay, variables)
    let mut defs = vec![];
    for s in st {
        let room = stages - s;
        let wide = g.chance(1, 10);
        let d = if g.chance(1, 2) { 0 } else { g.usize(0, room.min(5).max(if wide { 3 } else { 0 })) };
        let two = g.chance(1, 6);
        defs.push((s, d, plan.len(), two));
        plan.push((s, d));
        if two {
            plan.push((s, d));
        }
    }
    let mut b = Builder { g, plan, stages, nlocals: 0, wild };
    let mut vis: Vec<usize> = (0..inputs).collect();
    let mut sts = vec![];
    for (s, d, v, two) in defs {
        let e = b.ex(s, d, &vis, &[], 3);
        let pair = if two {
            let e2 = b.ex(s, d, &vis, &[], 2);
            Some((v + 1, e2))
        } else {
            None
        };
        vis.push(v);
        if two {
            vis.push(v + 1);
        }
        let parts = || std::iter::once(&e).chain(pair.iter().map(|p| &p.1));
        let refs = parts().any(|e| any(e, &|e| matches!(e, E::Ref(..))));
        let ann = b.g.bool() || refs;
        sts.push(St { stage: s, reg: b.g.chance(1, 7), var: v, ann, pair, e });
    }
    let result = b.ex(stages, 0, &vis, &[], 3);
    let nlocals = b.nlocals;
    let labels = (0..=stages).map(|_| g.bool()).collect();
    Pl { stages, inputs, labels, sts, result, nlocals, pre: pre.into(), join: g.bool() }
}

impl Pl {
    fn name(&self, v: usize) -> String {
        if v < self.inputs { format!("in{v}") } else { format!("v{v}") }
    }
    fn text(&self, e: &E, s: usize) -> String {
        let t = |e: &E| self.text(e, s);
        match e {
            E::Lit(n) => format!("{n}u8"),
            E::Var(v) => self.name(*v),
            E::Ref(o, lab, v) => {
                let to = s as i64 + o;
                if *lab && to >= 0 && to <= self.stages as i64 && self.labels[to as usize] {
                    format!("stage(l{to}).{}", self.name(*v))
                } else if *o < 0 || (*o == 0 && *lab) {
                    format!("stage(-{}).{}", -o, self.name(*v))
                } else {
                    format!("stage(+{o}).{}", self.name(*v))
                }
            }
            E::Loc(v) => format!("q{v}"),
            E::Bin(o, a, b) => format!("({} {} {})", t(a), OPS[*o], t(b)),
            E::Not(a) => format!("(~{})", t(a)),
            E::If(a, b, c, d) => format!("if {} < {} {{ {} }} else {{ {} }}", t(a), t(b), t(c), t(d)),
            E::Match(a, b, l, x, r1, mid, y, z, r3) => {
                let m = mid.as_ref().map(|(gd, p, q, r)| format!("(q{p}, q{q}) if {} < 99u8 => {}, ", t(gd), t(r))).unwrap_or_default();
                format!("match ({}, {}) {{ ({l}, q{x}) => {}, {m}(q{y}, q{z}) => {} }}", t(a), t(b), t(r1), t(r3))
            }
            E::Pair(0, a, b, w) => format!("({}, {}).{}", t(a), t(b), *w as u8),
            E::Pair(1, a, b, w) => format!("[{}, {}][{}]", t(a), t(b), *w as u8),
            E::Pair(_, a, b, w) => format!("{}S({}, {}).m{}", self.pre, t(a), t(b), *w as u8),
            E::Dyn(a, b, c) => format!("[{}, {}][if {} < 100u8 {{ 0u1 }} else {{ 1u1 }}]", t(a), t(b), t(c)),
            E::Fn(a, b) => format!("{}f({}, {})", self.pre, t(a), t(b)),
            E::Inst(i, m, args) => {
                let n = SUBS[*i].0;
                let a: Vec<String> = args.iter().map(t).collect();
                if *m {
                    format!("{}W({}).inst({n}) {}m{i}(clk{})", self.pre, a[0], self.pre, a[1..].iter().map(|x| format!(", {x}")).collect::<String>())
                } else {
                    format!("inst({n}) {}p{i}(clk, {})", self.pre, a.join(", "))
                }
            }
            E::Block(v, r) => format!("{{ {} {} }}", v.iter().map(|(x, e)| format!("let q{x} = {};", t(e))).collect::<Vec<_>>().join(" "), t(r)),
        }
    }
    fn source(&self) -> String {
        let p = &self.pre;
        let mut s = format!("struct {p}S {{ m0: uint<8>, m1: uint<8> }}\nstruct {p}W {{ m: uint<8> }}\nfn {p}f(a: uint<8>, b: uint<8>) -> uint<8> {{ a ^ (b +. 7) }}\n");
        for (i, (n, f, a)) in SUBS.iter().enumerate() {
            let b = if *a > 1 { ", b: uint<8>" } else { "" };
            s.push_str(&format!("pipeline({n}) {p}p{i}(clk: clock, a: uint<8>{b}) -> uint<8> {{ reg * {n}; {} }}\n", sub_text(*f)));
            s.push_str(&format!("impl {p}W {{ pipeline({n}) {p}m{i}(self, clk: clock{b}) -> uint<8> {{ let a = self.m; reg * {n}; {} }} }}\n", sub_text(*f)));
        }
        s.push_str(&format!(
            "pipeline({}) {p}top(clk: clock{}) -> uint<8> {{\n",
            self.stages,
            (0..self.inputs).map(|i| format!(", in{i}: uint<8>")).collect::<String>()
        ));
        let mut regs = 0;
        for stage in 0..=self.stages {
            if self.labels[stage] {
                s.push_str(&format!("'l{stage}\n"));
            }
            for st in self.sts.iter().filter(|s| s.stage == stage) {
                let kw = if st.reg { "reg(clk)" } else { "let" };
                match &st.pair {
                    Some((w, e2)) => s.push_str(&format!(
                        "{kw} ({}, {}){} = ({}, {});\n",
                        self.name(st.var),
                        self.name(*w),
                        if st.ann { ": (uint<8>, uint<8>)" } else { "" },
                        self.text(&st.e, stage),
                        self.text(e2, stage)
                    )),
                    None => s.push_str(&format!("{kw} {}{} = {};\n", self.name(st.var), if st.ann { ": uint<8>" } else { "" }, self.text(&st.e, stage))),
                }
            }
            if stage < self.stages {
                regs += 1;
                // several stages in one statement when nothing needs the stage in between
                let busy = self.labels[stage + 1] || self.sts.iter().any(|s| s.stage == stage + 1);
                if !self.join || busy || stage + 1 == self.stages {
                    s.push_str(&if regs > 1 { format!("reg * {regs};\n") } else { "reg;\n".into() });
                    regs = 0;
                }
            }
        }
        s.push_str(&format!("{}\n}}\n", self.text(&self.result, self.stages)));
        s
    }
    fn def(&self, v: usize) -> Option<&St> {
        self.sts.iter().find(|s| s.var == v || s.pair.as_ref().is_some_and(|p| p.0 == v))
    }
    /// the delay of every variable, or what is wrong
    fn delays(&self) -> Result<Vec<Option<usize>>, String> {
        // variables only depend on the delay of their own expression
        let nv = self.inputs + self.sts.iter().map(|s| 1 + s.pair.is_some() as usize).sum::<usize>();
        let mut avail: Vec<Option<usize>> = vec![None; nv];
        for i in 0..self.inputs {
            avail[i] = Some(0);
        }
        let mut errs = vec![];
        for st in &self.sts {
            let parts: Vec<&E> = std::iter::once(&st.e).chain(st.pair.iter().map(|p| &p.1)).collect();
            match self.same(&parts, &mut HashMap::new()) {
                Ok(d) => {
                    avail[st.var] = Some(st.stage + d.unwrap_or(0));
                    if let Some((w, _)) = st.pair {
                        avail[w] = avail[st.var];
                    }
                }
                Err(e) => errs.push(e),
            }
        }
        match self.delay(&self.result, &mut HashMap::new()) {
            Ok(Some(d)) if d > 0 => errs.push(format!("the result has delay {d}")),
            Ok(_) => {}
            Err(e) => errs.push(e),
        }
        // uses
        for st in &self.sts {
            for e in std::iter::once(&st.e).chain(st.pair.iter().map(|p| &p.1)) {
                self.uses(e, st.stage, &avail, &mut errs);
            }
        }
        self.uses(&self.result, self.stages, &avail, &mut errs);
        match errs.into_iter().next() {
            Some(e) => Err(e),
            None => Ok(avail),
        }
    }
    fn same(&self, v: &[&E], l: &mut HashMap<usize, Option<usize>>) -> Result<Option<usize>, String> {
        let mut r = None;
        for e in v {
            match (self.delay(e, l)?, r) {
                (None, _) => {}
                (Some(d), None) => r = Some(d),
                (Some(d), Some(x)) if d == x => {}
                (Some(d), Some(x)) => return Err(format!("delays {x} and {d} in one expression")),
            }
        }
        Ok(r)
    }
    fn delay(&self, e: &E, l: &mut HashMap<usize, Option<usize>>) -> Result<Option<usize>, String> {
        match e {
            E::Lit(_) => Ok(None),
            E::Var(_) | E::Ref(..) => Ok(Some(0)),
            E::Loc(v) => Ok(l[v]),
            E::Bin(_, a, b) | E::Pair(_, a, b, _) | E::Fn(a, b) => self.same(&[a, b], l),
            E::Not(a) => self.delay(a, l),
            E::If(a, b, c, d) => self.same(&[a, b, c, d], l),
            E::Dyn(a, b, c) => self.same(&[a, b, c], l),
            E::Match(a, b, _, x, r1, mid, y, z, r3) => {
                let d = self.same(&[a, b], l)?;
                for v in [x, y, z] {
                    l.insert(*v, d);
                }
                let mut all: Vec<&E> = vec![a, b, r1, r3];
                if let Some((gd, p, q, r)) = mid {
                    l.insert(*p, d);
                    l.insert(*q, d);
                    all.extend([&**gd, &**r]);
                }
                self.same(&all, l)
            }
            E::Inst(i, _, args) => Ok(Some(self.same(&args.iter().collect::<Vec<_>>(), l)?.unwrap_or(0) + SUBS[*i].0)),
            E::Block(v, r) => {
                for (x, e) in v {
                    let d = self.delay(e, l)?;
                    l.insert(*x, d);
                }
                self.delay(r, l)
            }
        }
    }
    fn uses(&self, e: &E, s: usize, avail: &[Option<usize>], errs: &mut Vec<String>) {
        let mut need = |v: usize, at: i64| {
            if at < 0 || at > self.stages as i64 {
                errs.push(format!("stage {at} does not exist"));
            } else if let Some(a) = avail[v] {
                if (a as i64) > at {
                    errs.push(format!("{} is ready in stage {a} and used in stage {at}", self.name(v)));
                }
            }
        };
        match e {
            E::Var(v) => need(*v, s as i64),
            E::Ref(o, _, v) => need(*v, s as i64 + o),
            _ => {}
        }
        for x in sub(e) {
            self.uses(x, s, avail, errs);
        }
    }
}

fn sub(e: &E) -> Vec<&E> {
    match e {
        E::Lit(_) | E::Var(_) | E::Ref(..) | E::Loc(_) => vec![],
        E::Bin(_, a, b) | E::Pair(_, a, b, _) | E::Fn(a, b) => vec![a, b],
        E::Not(a) => vec![a],
        E::If(a, b, c, d) => vec![a, b, c, d],
        E::Dyn(a, b, c) => vec![a, b, c],
        E::Match(a, b, _, _, r1, mid, _, _, r3) => {
            let mut v: Vec<&E> = vec![a, b, r1, r3];
            if let Some((gd, _, _, r)) = mid {
                v.extend([&**gd, &**r]);
            }
            v
        }
        E::Inst(_, _, args) => args.iter().collect(),
        E::Block(v, r) => v.iter().map(|x| &x.1).chain([&**r]).collect(),
    }
}
/// reference values: every value belongs to the inputs of one cycle
struct Eval<'a> {
    p: &'a Pl,
    inputs: &'a [Vec<u8>],
    memo: RefCell<HashMap<(usize, i64), Option<Option<u8>>>>,
    looped: std::cell::Cell<bool>,
}
impl<'a> Eval<'a> {
    /// `None`: unknown
    fn var(&self, v: usize, k: i64) -> Option<u8> {
        if v < self.p.inputs {
            return if k < 0 || k >= self.inputs.len() as i64 { None } else { Some(self.inputs[k as usize][v]) };
        }
        // before the first inputs nothing is known, not even what is computed from constants
        if k < 0 || k > self.inputs.len() as i64 + 40 {
            return None;
        }
        match self.memo.borrow().get(&(v, k)) {
            Some(Some(r)) => return *r,
            Some(None) => {
                self.looped.set(true);
                return None;
            }
            None => {}
        }
        self.memo.borrow_mut().insert((v, k), None);
        let st = self.p.def(v).unwrap();
        let e = if st.var == v { &st.e } else { &st.pair.as_ref().unwrap().1 };
        // a register of the pipeline's user shows the previous cycle's value
        let r = self.ex(e, st.stage, if st.reg { k - 1 } else { k }, &mut HashMap::new());
        self.memo.borrow_mut().insert((v, k), Some(r));
        r
    }
    fn ex(&self, e: &E, s: usize, k: i64, l: &mut HashMap<usize, Option<u8>>) -> Option<u8> {
        match e {
            E::Lit(n) => (k >= 0).then_some(*n),
            E::Var(v) => self.var(*v, k),
            E::Ref(o, _, v) => self.var(*v, k - o),
            E::Loc(v) => l[v],
            E::Bin(o, a, b) => {
                let (a, b) = (self.ex(a, s, k, l), self.ex(b, s, k, l));
                Some(op(*o, a?, b?))
            }
            E::Not(a) => self.ex(a, s, k, l).map(|x| !x),
            E::If(a, b, c, d) => {
                let (a, b, c, d) = (self.ex(a, s, k, l), self.ex(b, s, k, l), self.ex(c, s, k, l), self.ex(d, s, k, l));
                if a? < b? { c } else { d }
            }
            E::Dyn(a, b, c) => {
                let (a, b, c) = (self.ex(a, s, k, l), self.ex(b, s, k, l), self.ex(c, s, k, l));
                if c? < 100 { a } else { b }
            }
            E::Match(a, b, lit, x, r1, mid, y, z, r3) => {
                let (a, b) = (self.ex(a, s, k, l), self.ex(b, s, k, l));
                l.insert(*x, b);
                let v1 = self.ex(r1, s, k, l);
                let vm = mid.as_ref().map(|(gd, p, q, r)| {
                    l.insert(*p, a);
                    l.insert(*q, b);
                    (self.ex(gd, s, k, l), self.ex(r, s, k, l))
                });
                l.insert(*y, a);
                l.insert(*z, b);
                let v3 = self.ex(r3, s, k, l);
                if a? == *lit {
                    return v1;
                }
                if let Some((gd, r)) = vm {
                    if gd? < 99 {
                        return r;
                    }
                }
                v3
            }
            E::Pair(_, a, b, w) => {
                let (a, b) = (self.ex(a, s, k, l), self.ex(b, s, k, l));
                if *w { b } else { a }
            }
            E::Fn(a, b) => {
                let (a, b) = (self.ex(a, s, k, l), self.ex(b, s, k, l));
                Some(a? ^ b?.wrapping_add(7))
            }
            E::Inst(i, _, args) => {
                let v: Vec<Option<u8>> = args.iter().map(|a| self.ex(a, s, k, l)).collect();
                let v: Option<Vec<u8>> = v.into_iter().collect();
                v.map(|v| sub_fn(SUBS[*i].1, &v))
            }
            E::Block(v, r) => {
                for (x, e) in v {
                    let q = self.ex(e, s, k, l);
                    l.insert(*x, q);
                }
                self.ex(r, s, k, l)
            }
        }
    }
}
fn any(e: &E, f: &dyn Fn(&E) -> bool) -> bool {
    f(e) || sub(e).into_iter().any(|x| any(x, f))
}

pub fn timing_case(g: &mut Gen) -> Result<CaseOk, (Failure, serde_json::Value)> {
    let p = build(g, "u0_");
    let src = p.source();
    let cycles = 12 + p.stages;
    let inputs: Vec<Vec<u8>> = (0..cycles).map(|_| (0..p.inputs).map(|_| g.below(256) as u8).collect()).collect();
    let verdict = p.delays();
    let info = json!({"source": src, "expected": match &verdict { Ok(_) => "accepted".to_string(), Err(e) => format!("rejected: {e}") }});
    let bad = |class: &str, msg: String| Err((Failure { class: class.into(), msg }, info.clone()));
    let ev = Eval { p: &p, inputs: &inputs, memo: Default::default(), looped: Default::default() };
    let want: Vec<Option<u8>> = (0..cycles as i64).map(|t| ev.ex(&p.result, p.stages, t - p.stages as i64, &mut HashMap::new())).collect();
    // combinational loops are not a matter of timing
    for v in p.inputs..p.sts.iter().map(|s| s.pair.as_ref().map_or(s.var, |p| p.0) + 1).max().unwrap_or(0) {
        (0..cycles as i64).for_each(|k| drop(ev.var(v, k)));
    }
    if ev.looped.get() {
        return Ok(CaseOk { nontrivial: None, sample: json!(null), feats: vec!["set aside: combinational loop"] });
    }
    beat(&src);
    let o = spadec::run(&spadec::single(&src), &Opts::default());
    if let Some(e) = &o.panic {
        return bad(&format!("panic {}", norm_panic(e)), format!("the compiler panicked: {e}"));
    }
    let mut feats = vec![];
    match verdict {
        Err(why) => {
            if o.ok {
                return bad("accepted", format!("a pipeline was accepted although {why}"));
            }
            if let Some(b) = o.errors().iter().find(|d| d.level == Level::Bug) {
                return bad("internal error", format!("internal error: {}", b.msg));
            }
            feats.push(if why.contains("ready") {
                "rejected: used before it is ready"
            } else if why.contains("exist") {
                "rejected: stage that does not exist"
            } else if why.contains("result") {
                "rejected: delayed result"
            } else {
                "rejected: different delays in one expression"
            });
            let msgs: Vec<String> = o.errors().iter().map(|d| d.msg.clone()).collect();
            Ok(CaseOk { nontrivial: Some(tape::hash_str(&src)), sample: json!({"source": src, "expected": why, "errors": msgs}), feats })
        }
        Ok(avail) => {
            if !o.ok {
                return bad(&format!("reject {}", norm_msg(&o.errors().first().map(|d| d.msg.clone()).unwrap_or_default())), format!("a pipeline in which every value is ready when used was rejected: {}", o.first_error()));
            }
            let design = match crate::vparse::parse(o.verilog.as_ref().unwrap()) {
                Ok(d) => d,
                Err(e) => return bad("malformed verilog", e.to_string()),
            };
            let mut sim = match Sim::new(&design, "u0_top") {
                Ok(s) => s,
                Err(e) => return bad("elaboration", e),
            };
            let mut known = 0;
            let r = (|| -> Result<(), String> {
                sim.set("clk_i", Bv::zero(1))?;
                for t in 0..cycles {
                    for i in 0..p.inputs {
                        sim.set(&format!("in{i}_i"), Bv::from_u64(8, inputs[t][i] as u64))?;
                    }
                    sim.settle()?;
                    if let Some(w) = want[t] {
                        known += 1;
                        let got = sim.get("output__")?;
                        if got.to_u64() != Some(w as u64) {
                            return Err(format!("in cycle {t} expected {w:#04x}, got {}; inputs {inputs:?}", got.to_bits()));
                        }
                    }
                    sim.tick("clk_i")?;
                }
                Ok(())
            })();
            if let Err(e) = r {
                return bad("wrong value", e);
            }
            let all: Vec<&E> = p.sts.iter().flat_map(|s| std::iter::once(&s.e).chain(s.pair.iter().map(|p| &p.1))).chain([&p.result]).collect();
            let delayed = p.sts.iter().any(|s| avail[s.var] != Some(s.stage));
            let refs = all.iter().any(|e| any(e, &|e| matches!(e, E::Ref(..))));
            let nested = all.iter().any(|e| any(e, &|e| matches!(e, E::Inst(_, _, a) if a.iter().any(|x| any(x, &|y| matches!(y, E::Inst(..)))))));
            feats.push("accepted");
            if delayed {
                feats.push("accepted with delayed values");
            }
            if refs {
                feats.push("accepted with stage references");
            }
            if nested {
                feats.push("accepted with nested sub pipelines");
            }
            let nt = (delayed || refs || nested) && known >= 3;
            Ok(CaseOk { nontrivial: if nt { Some(tape::hash_str(&src)) } else { None }, sample: json!({"source": src, "outputs": want}), feats })
        }
    }
}

pub fn c12(ctx: &Ctx) {
    ctx.rule("a pipeline counts when it must be rejected, or when it has delayed values, stage references or nested sub pipelines and at least three known outputs");
    ctx.assume("the harness' own Verilog parser/simulator implements the IEEE 1800 semantics of the emitted subset");
    run_cases(ctx, "timing", &timing_case, ctx.amount(3500, 150000));
}
